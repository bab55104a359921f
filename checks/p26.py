"""P26: descriptor ownership and reported failures of the socket classes."""
import sockmodel

RULE = ('Typestate exploration of the socket classes: from every reachable state of the descriptors held by an object, every public operation '
        'is interpreted with every outcome of the system calls it makes; each descriptor from socket() or accept() must have one owner and be '
        'closed exactly once by the end of every history, is_open() must tell whether it is, a failing call must be what the caller sees, and '
        'the calls must be given the address, bytes and options the caller passed.')


def run(chk):
    chk.floor('transitions', 20)
    chk.floor('states', 4)
    chk.floor('endpoint constructors', 2)
    chk.spread([('IPv4', 'AF_INET'), ('IPv6', 'AF_INET6')], sockmodel.check)
    chk.assumptions += ['::close is taken to release the descriptor whatever it returns',
                        'a call on descriptor -1 fails']
