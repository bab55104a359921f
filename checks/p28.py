"""P28: the messaging client is transparent."""
import os
import natsmodel
from p24 import Silent
from common import dump, VERIF

RULE = ('Every public operation of the messaging client, in every reachable state and with every outcome of the NATS calls, compared with what '
        'it passes to the NATS library and what it returns: subjects, groups, URLs, reply subjects and data unchanged, the form of subscription '
        'asked for, the status of a failed call returned, names and URLs exactly those the library reports.')


def run(chk):
    chk.floor('operations', 50)
    chk.floor('statuses', 10)
    P = dump(os.path.join(VERIF, 'tus', 'nats.cpp'))
    C = natsmodel.Client(Silent(), P)
    C.explore_all()
    C.c = chk
    chk.count('states', len(C.states))
    natsmodel.transparent(C)
