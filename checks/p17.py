RULE = ("abstract interpretation of the generated code: the repository's generator is run on a family of accepted specifications; over the typed syntax tree of its output, every constructor, setter, reference, reset, decoder and serialiser of each packet class is interpreted in a bit-provenance domain (symbolic field values, enumerated presence sets, operation orders and sequence lengths) and each serialised part is compared, byte by byte, with the part an independent model of the VITA 49.2 order puts at that offset; min_bytes() equals the sum of the required parts")
import gencheck


def run(chk):
    gencheck.run(chk, 17)
