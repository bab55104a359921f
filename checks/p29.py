"""P29: threads, endpoints and data packets of generated nodes."""
import nodemodel

RULE = ('Path exploration of the generated controller and controllee classes: every sequence of up to four starts and stops followed by destruction '
        '(typestate of the thread: started once, told to end before it is waited for, ended before any member or handler it uses is destroyed), '
        'every outcome of construction and of setting endpoints, every path of the data and context receiver thread and of the send functions.')


def run(chk):
    chk.floor('specifications', 30)
    chk.floor('node classes', 30)
    nodemodel.over(chk, 'Lifecycle')
    chk.assumptions += ['listeners are registered before receiving is enabled', 'start and stop are called by one thread',
                        'the receive timeout the sockets are created with is left in place']
