"""P25: ownership of messaging handles."""
import os
import natsmodel
from common import dump, VERIF

RULE = ('Typestate exploration of the messaging client and message classes: from every reachable state (handles held, worker running, messages '
        'queued) every public operation, delivery callback, worker iteration and destruction is interpreted with every outcome of the NATS '
        'calls; every handle obtained has one owner, is released exactly once by the end of every history and never used afterwards.')


def run(chk):
    chk.floor('transitions', 50)
    chk.floor('states', 8)
    chk.floor('message states', 2)
    P = dump(os.path.join(VERIF, 'tus', 'nats.cpp'))
    C = natsmodel.Client(chk, P)
    C.explore_all()
    ri = P.recs[C.rec]
    mv = [x for x in ri['methods'] if (x.get('ctor') == 'move' or x.get('assign') == 'move') and not x['deleted'] and not x['implicit']]
    chk.require(not ri['copyable'] and not ri['copyassignable'] and not mv, 'client/copies', C.where0, 'a client can be copied: two owners of its handles')
    natsmodel.messages(chk, P)
    chk.assumptions += ['a NATS call that fails leaves its out parameter unchanged', 'a *_Destroy call releases its handle', 'memory allocation does not fail']
