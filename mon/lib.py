'''Conversions between the models and the library's objects.'''
import bitcoinx as bx
from bitcoinx import Script, Tx, TxInput, TxOutput
from ref import wire

COINS = [bx.Bitcoin, bx.BitcoinTestnet, bx.BitcoinScalingTestnet, bx.BitcoinRegtest]


def lib_txin(m):
    return TxInput(m[0], m[1], Script(m[2]), m[3])


def lib_txout(m):
    return TxOutput(m[0], Script(m[1]))


def lib_tx(t, share=False):
    '''share: equal inputs, and equal outputs, are the same object.'''
    if share:
        ins, outs = {}, {}
        return Tx(t[0], [ins.setdefault(m, lib_txin(m)) for m in t[1]],
                  [outs.setdefault(m, lib_txout(m)) for m in t[2]], t[3])
    return Tx(t[0], [lib_txin(m) for m in t[1]], [lib_txout(m) for m in t[2]], t[3])


def model_tx(tx):
    '''The fields a library transaction reports.'''
    return (tx.version,
            [(i.prev_hash, i.prev_idx, bytes(i.script_sig), i.sequence) for i in tx.inputs],
            [(o.value, bytes(o.script_pubkey)) for o in tx.outputs], tx.locktime)


def edit_tx(rng, t, tx):
    '''Change one thing of a library transaction with inputs and outputs in place; its new model.'''
    version, ins, outs, locktime = t[0], list(t[1]), list(t[2]), t[3]
    kind = rng.randrange(11)
    k, j = rng.randrange(len(ins)), rng.randrange(len(outs))
    if kind == 0:
        tx.version = version = version ^ 1 << rng.randrange(31)
    elif kind == 1:
        tx.locktime = locktime = locktime ^ 1 << rng.randrange(32)
    elif kind == 2:
        ins[k] = wire.rand_txin(rng)
        tx.inputs[k] = lib_txin(ins[k])
    elif kind == 3:
        outs[j] = wire.rand_txout(rng)
        tx.outputs[j] = lib_txout(outs[j])
    elif kind == 4:
        ins.reverse()
        tx.inputs.reverse()
    elif kind == 5:
        outs.append(wire.rand_txout(rng))
        tx.outputs.append(lib_txout(outs[-1]))
    elif kind == 6:
        sequence = ins[k][3] ^ 1 << rng.randrange(32)
        ins[k] = ins[k][:3] + (sequence,)
        tx.inputs[k].sequence = sequence
    elif kind == 7:
        script = rng.randbytes(rng.choice([len(ins[k][2]), 0, 107, 252, 253]))
        ins[k] = ins[k][:2] + (script, ins[k][3])
        tx.inputs[k].script_sig = Script(script)
    elif kind == 8:
        value = outs[j][0] ^ 1 << rng.randrange(40)
        outs[j] = (value, outs[j][1])
        tx.outputs[j].value = value
    elif kind == 9:
        script = rng.randbytes(rng.choice([len(outs[j][1]), 0, 25, 252, 253]))
        outs[j] = (outs[j][0], script)
        tx.outputs[j].script_pubkey = Script(script)
    else:
        prev = rng.randbytes(32), rng.getrandbits(32)
        ins[k] = prev + ins[k][2:]
        tx.inputs[k].prev_hash, tx.inputs[k].prev_idx = prev
    return (version, ins, outs, locktime), kind
