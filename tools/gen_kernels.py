"""Writes spec/Kernels.tla: integer tables (scale 1e5) of the windowed DFT kernel  ww/n * hamming(t) * exp(-2 pi i f t/n)."""
import math, os
out = ['---- MODULE Kernels ----', '(* generated by tools/gen_kernels.py: KR[n][f+1][t+1], KI[n][f+1][t+1] at scale 100000;',
       '   gain-corrected symmetric Hamming window times the DFT twiddle factor, divided by n; WN[n][t+1] = window at scale 100000 *)', 'EXTENDS Integers']
def tab(n):
    w = [0.54 - 0.46 * math.cos(2 * math.pi * t / (n - 1)) for t in range(n)]
    ww = n / sum(w)
    R = [[round(1e5 * ww / n * w[t] * math.cos(2 * math.pi * f * t / n)) for t in range(n)] for f in range(n)]
    I = [[round(-1e5 * ww / n * w[t] * math.sin(2 * math.pi * f * t / n)) for t in range(n)] for f in range(n)]
    return R, I, [round(1e5 * x) for x in w]
tup = lambda m: '<<' + ', '.join(tup(x) if isinstance(x, list) else str(x) for x in m) + '>>'
NS = range(4, 11)
for name, k in (('KR', 0), ('KI', 1), ('WN', 2)):
    out.append('%s == [n \\in 4..10 |-> CASE ' % name + '\n   [] '.join('n = %d -> %s' % (n, tup(tab(n)[k])) for n in NS) + ']')
cl = lambda n: [max(0, round(1e6 * math.cos(-math.pi / 2 + i * math.pi / (n - 1)) * math.pi / (n - 1))) for i in range(n)]
out.append('\\* area of a latitude band per unit of longitude (scale 10^6): cos(lat_i) * spacing, n latitudes from pole to pole')
LN = list(range(3, 15)) + [46, 61, 91]
out.append('LAT == [n \\in {%s} |-> CASE ' % ', '.join(map(str, LN)) + '\n   [] '.join('n = %d -> %s' % (n, tup(cl(n))) for n in LN) + ']')
out.append('====')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Kernels.tla'), 'w').write('\n'.join(out) + '\n')
