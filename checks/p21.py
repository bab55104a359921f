RULE = ("abstract interpretation of the generated code: the repository's generator is run on a family of accepted specifications; the match function, the decoding constructor and then every reader of each packet class are interpreted on received bytes that end before the packet does (every length), that declare another length than they have, and that announce fields, list lengths or indicator words the data do not hold; every access to the received bytes and to the packet's own buffer is checked against the extent of the object, and identification must refuse what is shorter than the header, the declared length or the minimum of the definition")
import matchmodel


def run(chk):
    matchmodel.run(chk, 21)
