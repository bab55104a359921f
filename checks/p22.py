"""P22: a controllee answers what was asked."""
import nodemodel

RULE = ('Path exploration of the generated listener thread: the node headers the repository\'s generator writes for a family of specifications '
        '(every transport, every combination of acknowledgement requests, every identifier form, one and two control packets) are interpreted with '
        'packets, handlers and received data opaque; on every path (request bits, identification, decoding, receive and send results) the '
        'handlers called and the packets sent are compared with the kinds the received packet requests, their order, addressee and identifiers.')


def run(chk):
    chk.floor('specifications', 30)
    chk.floor('controllees', 30)
    nodemodel.over(chk, 'Controllee')
    chk.assumptions += ['handlers return, and raise no exception', 'a received datagram, message or read holds one packet']
