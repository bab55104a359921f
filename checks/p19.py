RULE = ("abstract interpretation of the generated code: the repository's generator is run on a family of accepted specifications; over the typed syntax tree of its output, every constructor, setter, reference, reset, decoder and serialiser of each packet class is interpreted in a bit-provenance domain (symbolic field values, enumerated presence sets, operation orders and sequence lengths) and the value a writer stores is compared, bit by bit, with the big-endian encoding in the width and radix of the field, a reader must return the bits stored at the field, and declared constants must appear in a fresh packet; the generated classes of user-defined subfields use the bits the declaration order gives each subfield")
import gencheck, userclass


def run(chk):
    gencheck.run(chk, 19)
    userclass.run(chk)
