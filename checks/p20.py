RULE = ("abstract interpretation of the generated code: the repository's generator is run on a family of accepted specifications; the match function of each packet class is interpreted on a received packet in which every bit the definition leaves open is symbolic and every bit it fixes has the value of a freshly constructed packet of the definition, where acceptance must be certain, and once more for each fixed bit (packet type, class-id, timestamp and trailer indicators, declared class identifier codes, identifier enables and formats, required control/acknowledge bits) with that bit inverted, where refusal must be certain")
import matchmodel


def run(chk):
    matchmodel.run(chk, 20)
