"""C22, C23: programmatic use."""
import random
import vlib, apidrv, libdrv, methdrv

def mult():
    return 8 if vlib.THOROUGH else 1

def c22(c):
    apidrv.judge(c, apidrv.sessions(random.Random(vlib.SEED * 1000 + 22), 2500 * mult()))
    libdrv.judge(c, *libdrv.clones(vlib.SEED * 1000 + 22, 2500 * mult()))

def c23(c):
    methdrv.judge(c, vlib.SEED * 1000 + 23, 4000 * mult())
