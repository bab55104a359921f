"""P27: commands and the replies they wait for."""
import nodemodel

RULE = ('Path exploration of the generated command functions and of send_packet for every transport: with every combination of request bits, every '
        'outcome and length of sending and receiving, every identification and decoding result, what is sent, where, from which bytes each '
        'acknowledgement is taken and whether the function returns normally is compared with what was asked for.')


def run(chk):
    chk.floor('specifications', 30)
    chk.floor('commands', 30)
    nodemodel.over(chk, 'Commands')
    chk.assumptions += ['replies are not correlated by message identifier: a matching acknowledgement for an earlier command is accepted']
