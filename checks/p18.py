RULE = ("abstract interpretation of the generated code: the repository's generator is run on a family of accepted specifications; over the typed syntax tree of its output, every constructor, setter, reference, reset, decoder and serialiser of each packet class is interpreted in a bit-provenance domain (symbolic field values, enumerated presence sets, operation orders and sequence lengths) and the serialised indicator words and header length are compared with the fields actually present after every operation; a second assignment or serialisation must not change the length")
import gencheck


def run(chk):
    gencheck.run(chk, 18)
