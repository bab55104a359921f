// analysed, never linked or run: names every packing type so that its members are instantiated
#include <vrtgen/vrtgen.hpp>
namespace vp {
struct Record {
    std::size_t size() const { return 8; }
    void pack_into(uint8_t* p) const { a.pack_into(p); b.pack_into(p + 4); }
    void unpack_from(const uint8_t* p) { a.unpack_from(p); b.unpack_from(p + 4); }
    vrtgen::packed<uint32_t> a;
    vrtgen::packed<uint32_t> b;
};
struct Uses {
    vrtgen::packing::CIF0 cif0;
    vrtgen::packing::CIF1 cif1;
    vrtgen::packing::CIF2 cif2;
    vrtgen::packing::CIF7 cif7;
    vrtgen::packing::WIF0 wif0;
    vrtgen::packing::EIF0 eif0;
    vrtgen::packing::WEIF1 weif1;
    vrtgen::packing::WEIF2 weif2;
    vrtgen::packing::WEIF3 weif3;
    vrtgen::packing::WEIF7 weif7;
    vrtgen::packing::SectorStepScanCIF sss;
    vrtgen::UUID uuid;
    vrtgen::packing::IndexList<uint8_t> il8;
    vrtgen::packing::IndexList<uint16_t> il16;
    vrtgen::packing::IndexList<uint32_t> il32;
    vrtgen::packing::SectorStepScan<Record> aor;
};
}
namespace vp {
// mentions the encoder, decoder and size of every structure so that templated bases are instantiated
template <class T> std::size_t codec(T& t, uint8_t* p, const uint8_t* q) { t.unpack_from(q); t.pack_into(p); return t.size(); }
inline void all(uint8_t* p, const uint8_t* q)
{
    { vrtgen::packing::AcknowledgeCAM t; codec(t, p, q); }
    { vrtgen::packing::BeamWidth t; codec(t, p, q); }
    { vrtgen::packing::Belief t; codec(t, p, q); }
    { vrtgen::packing::CIF0 t; codec(t, p, q); }
    { vrtgen::packing::CIF1 t; codec(t, p, q); }
    { vrtgen::packing::CIF2 t; codec(t, p, q); }
    { vrtgen::packing::CIF7 t; codec(t, p, q); }
    { vrtgen::packing::ClassIdentifier t; codec(t, p, q); }
    { vrtgen::packing::CommandHeader t; codec(t, p, q); }
    { vrtgen::packing::ContextAssociationLists t; codec(t, p, q); }
    { vrtgen::packing::ContextHeader t; codec(t, p, q); }
    { vrtgen::packing::ControlAcknowledgeMode t; codec(t, p, q); }
    { vrtgen::packing::ControlCAM t; codec(t, p, q); }
    { vrtgen::packing::DataHeader t; codec(t, p, q); }
    { vrtgen::packing::DeviceIdentifier t; codec(t, p, q); }
    { vrtgen::packing::EIF0 t; codec(t, p, q); }
    { vrtgen::packing::EbNoBER t; codec(t, p, q); }
    { vrtgen::packing::Ephemeris t; codec(t, p, q); }
    { vrtgen::packing::GPS_ASCII t; codec(t, p, q); }
    { vrtgen::packing::Gain t; codec(t, p, q); }
    { vrtgen::packing::Geolocation t; codec(t, p, q); }
    { vrtgen::packing::Header t; codec(t, p, q); }
    { vrtgen::packing::InterceptPoints t; codec(t, p, q); }
    { vrtgen::packing::PayloadFormat t; codec(t, p, q); }
    { vrtgen::packing::PointingVector t; codec(t, p, q); }
    { vrtgen::packing::Polarization t; codec(t, p, q); }
    { vrtgen::packing::Probability t; codec(t, p, q); }
    { vrtgen::packing::SNRNoise t; codec(t, p, q); }
    { vrtgen::packing::SectorStepScanCIF t; codec(t, p, q); }
    { vrtgen::packing::Spectrum t; codec(t, p, q); }
    { vrtgen::packing::StateEventIndicators t; codec(t, p, q); }
    { vrtgen::packing::Threshold t; codec(t, p, q); }
    { vrtgen::packing::Trailer t; codec(t, p, q); }
    { vrtgen::packing::VersionInformation t; codec(t, p, q); }
    { vrtgen::packing::WEIF1 t; codec(t, p, q); }
    { vrtgen::packing::WEIF2 t; codec(t, p, q); }
    { vrtgen::packing::WEIF3 t; codec(t, p, q); }
    { vrtgen::packing::WEIF7 t; codec(t, p, q); }
    { vrtgen::packing::WIF0 t; codec(t, p, q); }
    { vrtgen::packing::WarningErrorFields t; codec(t, p, q); }
    { vrtgen::packing::difi::BufferSize t; codec(t, p, q); }
    { vrtgen::packing::difi::ReferenceLevel t; codec(t, p, q); }
    { vrtgen::UUID t; codec(t, p, q); }
    { vrtgen::packing::IndexList<uint8_t> t; codec(t, p, q); }
    { vrtgen::packing::IndexList<uint16_t> t; codec(t, p, q); }
    { vrtgen::packing::IndexList<uint32_t> t; codec(t, p, q); }
    { vrtgen::packing::SectorStepScan<vp::Record> t; codec(t, p, q); }
}
}
template class vrtgen::packing::IndexList<uint8_t>;
template class vrtgen::packing::IndexList<uint16_t>;
template class vrtgen::packing::IndexList<uint32_t>;
template class vrtgen::packing::SectorStepScan<vp::Record>;
