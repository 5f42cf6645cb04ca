# C11: little-endian writers (generator/byteutils.py)

@spec
def le_byte(x, k):
    return (x // 256 ** k if False else (x if k == 0 else (x // 256 if k == 1 else (x // 65536 if k == 2 else x // 16777216)))) % 256

def _writer(name, lo, hi, n):
    contract('generator.byteutils:' + name, props=['C11', 'C14'],
        modifies=['at:data'],
        raises=[('ValueError', f'not ({lo} <= x <= {hi})')],
        ensures=[
            f'{lo} <= x <= {hi}',
            f'len(data) == old(len(data)) + {n}',
            'all(data[i] == old(data[i]) for i in range(0, old(len(data))))',
            ] + [f'data[old(len(data)) + {k}] == le_byte(x, {k})' for k in range(n)])

_writer('write_u8', 0, 255, 1)
_writer('write_i8', -128, 127, 1)
_writer('write_u16', 0, 65535, 2)
_writer('write_i16', -32768, 32767, 2)
_writer('write_u32', 0, 4294967295, 4)
_writer('write_i32', -2147483648, 2147483647, 4)
