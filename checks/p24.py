"""P24: locking and waking of the messaging client."""
import os
import natsmodel
from common import Check, dump, VERIF

RULE = ('Lockset, race, wait/notify and order rules on the explored transitions of the messaging client: each queue has one lock held at every '
        'access; members used by running deliveries or the worker are accessed under a common lock; what ends a wait is changed under the lock '
        'of the wait and announced afterwards, also by stopping; queues are first in first out and each message goes to one caller; locks are '
        'taken in one order and no thread is joined under a lock it needs.')


class Silent:
    """exploration only: handle ownership is P25"""
    def __getattr__(self, n):
        return lambda *a, **k: None


def run(chk):
    chk.floor('waiting operations', 2)
    chk.floor('queue accesses', 6)
    chk.floor('messages queued', 2)
    chk.floor('wake-ups', 2)
    P = dump(os.path.join(VERIF, 'tus', 'nats.cpp'))
    C = natsmodel.Client(Silent(), P)
    C.explore_all()
    C.c = chk
    chk.count('states', len(C.states))
    chk.count('transitions', len(C.transitions))
    natsmodel.Schedules(C).run()
    chk.assumptions += ['operations that set the client up or tear it down are called from one thread at a time; waiting and publishing may go on in others',
                        'NATS serialises the deliveries of one subscription']
