"""Which harness decides which property, over which real sources, within which bounds."""
ALL = []
PROPS = {}
NA = {}
COMMON_ASSUMPTIONS = [
    'CBMC 6.11 semantics of C (gnu99, x86-64), its SAT back end, and goto-cc front end',
    'allocation succeeds unless the harness injects failures',
    'console output (printf/fprintf) has no effect on behaviour',
]
CORE = ['diag_general.c', 'diag_l0.c', 'diag_l1.c', 'diag_l2.c']


class H:
    def __init__(self, prop, name, file, repo, env=('vp_bus.c',), defs=None, unwind=10, unwindset=(), bounds='',
                 thorough_defs=None, unwind_thorough=None, bounds_t=None, overflow=False, cbmc_args=(),
                 remove_bodies=(), keep_bodies=(), rename=(), no_rename=(), rename_all=False, repo_defs=None,
                 timeout=150, timeout2=150, shapes=(), shapes_t=(), solvers=('z3', 'sat'), fs=1100, validate=1, thorough_only=False, object_bits=10, cost=1, witness=None, native_libs=()):
        self.__dict__.update(locals())
        del self.__dict__['self']
        for k in ('unwindset', 'cbmc_args', 'remove_bodies', 'keep_bodies', 'rename', 'no_rename', 'env', 'repo', 'native_libs', 'shapes', 'shapes_t', 'solvers'):
            setattr(self, k, list(getattr(self, k)))
        self.defs = dict(defs or {})
        self.thorough_defs = dict(thorough_defs or {})
        self.repo_defs = dict(repo_defs or {})
        ALL.append(self)


L2 = lambda p: {'VP_L2PROTO': p}
NS = [1, 2, 7, 62, 63, 64, 65, 128, 254, 255]
H('C06', 'iso14230_tx', 'h_iso14230_tx.c', CORE + ['diag_l2_iso14230.c'],
  defs=L2('diag_l2_proto_iso14230'), unwind=300,
  shapes=[dict(N=n, KB=k, FUNC=(n + k) & 1, L1CKS=c) for n in (1, 63, 64, 255) for k in (0,1,2,3,4,5,6,7,8,11,12,15) for c in (0,)],
  shapes_t=[dict(N=n, KB=k, FUNC=f, L1CKS=c) for n in range(1,256,9) for k in range(16) for f in (0,1) for c in (0,1)],
  bounds='payload lengths x key byte kinds; all contents/addresses symbolic')

KFL = 'DIAG_L1_DOESL2FRAME'
L1STRIP, L1NOHDR = 'DIAG_L1_STRIPSL2CKSUM', 'DIAG_L1_NOHDRS'


def kframes(groups, l1f='0', split=0, cut=0, extra=()):
    """groups: list of bursts, each a list of (kind, n) frames; kind: P/F addressed, S short; trailing L = length byte.
    cut: drop that many bytes from the end; extra: more fixed bytes"""
    st, bursts, pos = [], [], 0
    strip, hdr = L1STRIP in l1f, L1NOHDR not in l1f
    for g in groups:
        s = pos
        for k, n in g:
            if hdr:
                fmt = {'P': 0x80, 'F': 0xC0, 'S': 0}[k[0]]
                st.append((pos, fmt | (0 if k.endswith('L') else n)))
                pos += 1 + (2 if fmt else 0)
                if k.endswith('L'):
                    st.append((pos, n))
                    pos += 1
            pos += n + (0 if strip else 1)
        bursts.append(pos - s)
    bursts[-1] -= cut
    return rawstream(st + list(extra), bursts, l1f, split)


def rawstream(st, bursts, l1f='0', split=0):
    st = list(st) or [(-1, 0)]
    return dict(STRUCT=','.join('{%d,%d}' % f for f in st), BURSTS=','.join(map(str, bursts)), L1F=l1f, SPLIT=split)


def kclose(st, bursts, l1f='0', fmts=(0, 1, 0x40, 0x80, 0x81, 0xc2), lens=(0, 1, 2, 255)):
    """fix every byte the decoder takes as structure, trying the given values where the shape leaves it open"""
    if L1NOHDR in l1f:
        return [(st, bursts)]
    d = dict(st)
    pos = 0
    for n in bursts:
        p = 0
        while p < n:
            if pos + p not in d:
                return sum([kclose(list(st) + [(pos + p, v)], bursts, l1f, fmts, lens) for v in fmts], [])
            f = d[pos + p]
            if f & 0xc0 == 0x40:
                break
            addr, lb = f & 0x80, f & 0x3f == 0
            hl = 1 + (2 if addr else 0) + (1 if lb else 0)
            if n - p < hl:
                break
            if lb and pos + p + hl - 1 not in d:
                return sum([kclose(list(st) + [(pos + p + hl - 1, v)], bursts, l1f, fmts, lens) for v in lens], [])
            dl = d[pos + p + hl - 1] if lb else f & 0x3f
            if dl == 0 or l1f != '0':
                break
            p += hl + dl + 1
        pos += n
    return [(st, bursts)]


KL1 = (KFL, KFL + '|' + L1STRIP, KFL + '|' + L1NOHDR, KFL + '|' + L1NOHDR + '|' + L1STRIP)
_okF = [([[f]], '0', 0) for f in (('P', 1), ('P', 63), ('F', 3), ('PL', 1), ('PL', 64), ('PL', 255), ('FL', 255), ('S', 1), ('S', 63), ('SL', 64), ('SL', 128), ('SL', 255))] + [
    ([[('P', 3), ('P', 2)]], '0', 0), ([[('P', 3)], [('P', 2)]], '0', 0), ([[('PL', 4), ('S', 2), ('F', 1)]], '0', 0),
    ([[('PL', 4), ('S', 2)], [('F', 1)]], '0', 0), ([[('PL', 250), ('P', 3)]], '0', 0), ([[('PL', 252), ('P', 3)]], '0', 0),
    ([[('FL', 255), ('PL', 255)]], '0', 0), ([[('P', 5), ('P', 6)]], '0', 4), ([[('P', 5)]], '0', 1),
    ([[('SL', 253), ('SL', 254), ('S', 1)]], '0', 0), ([[('P', 1)] * 4], '0', 0)] + [
    ([[('P', 3)], [('PL', 70)]], f, 0) for f in KL1] + [([[('FL', 255)]], f, 0) for f in KL1]
_ok = [kframes(g, f, sp) for g, f, sp in _okF]
_bad = [kframes([[('P', 3), ('P', 4)]], cut=c) for c in (1, 2, 5, 6, 7)] + [kframes([[('PL', 255)]], cut=c) for c in (1, 255)]


def _closed(st, bursts, l1f='0', **kw):
    return [rawstream(a, b, l1f) for a, b in kclose(st, bursts, l1f, **kw)]


# short bursts: every structural outcome of 1..4 bytes (thorough: up to 6, every format byte)
_bad += sum([_closed([], [n]) for n in (1, 2, 3, 4)], [])
_bad += sum([_closed([(0, 0x80), (3, 1)], [n]) for n in (5, 6)], [])
_bad += sum([_closed([], [n], f) for n in (1, 2, 3, 5) for f in KL1], [])
_more = sum([_closed([], [n], fmts=(0, 1, 2, 3, 4, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0x82, 0xbf, 0xc0, 0xc1, 0xff)) for n in (1, 2, 3, 4, 5, 6)], [])
_more += [rawstream([(0, v)], [1]) for v in range(256)]
_more += [kframes([[(k, n)]]) for k, r in (('P', range(1, 64, 3)), ('S', range(1, 64, 3)), ('PL', range(1, 256, 9)), ('SL', range(1, 256, 9)), ('FL', range(2, 256, 13))) for n in r]
_more += [kframes([[(k, n), ('P', 2)], [('SL', 3)]], split=sp) for k in ('PL', 'SL') for n in range(1, 256, 17) for sp in (0, 1, 3, n)]
_uniq = lambda l: [x for i, x in enumerate(l) if x not in l[:i]]
H('C07', 'iso14230_rx', 'h_iso14230_rx.c', CORE + ['diag_l2_iso14230.c'], defs=L2('diag_l2_proto_iso14230'), unwind=1100,
  shapes=_uniq(_ok + _bad), shapes_t=[x for x in _uniq(_more) if x not in _ok + _bad], bounds='up to 4 frames of 1..255 payload bytes per receive')

# ---- L1, messages ----------------------------------------------------------
_f = lambda *a: '|'.join('DIAG_L1_' + x for x in a) or '0'
H('C06', 'cks1', 'h_cks.c', CORE, unwind=270, shapes=[dict(N=n) for n in (0, 1, 4, 64, 259)], defs=L2('diag_l2_proto_raw'), repo_defs={}, bounds='checksum of up to 259 bytes')
ALL[-1].repo.append('diag_l2_raw.c')
RAWL = CORE + ['diag_l2_raw.c']
H('C02', 'l1', 'h_l1.c', RAWL, defs=L2('diag_l2_proto_raw'), unwind=12,
  shapes=[dict(FLAGS=f, P4=p, N=n) for f in (_f(), _f('HALFDUPLEX'), _f('HALFDUPLEX', 'BLOCKDUPLEX'), _f('BLOCKDUPLEX', 'DOESP4WAIT'), _f('HALFDUPLEX', 'DOESP4WAIT'), _f('DOESL2FRAME'), _f('BLOCKDUPLEX', 'DOESL2FRAME'), _f('BLOCKDUPLEX'))
          for p in (0, 5) for n in (1, 3, 9)] + [dict(FLAGS=f, P4=0, N=n, _unwind=n + 5) for f in (_f(), _f('HALFDUPLEX', 'BLOCKDUPLEX'), _f('DOESL2FRAME'), _f('BLOCKDUPLEX')) for n in (40, 259)],
  shapes_t=[dict(FLAGS=f, P4=p, N=n) for f in (_f(), _f('HALFDUPLEX'), _f('HALFDUPLEX', 'BLOCKDUPLEX'), _f('BLOCKDUPLEX', 'DOESP4WAIT'), _f('DOESL2FRAME'), _f('BLOCKDUPLEX'))
          for p in (0, 20) for n in (2, 5, 9)],
  bounds='messages of 1..3 bytes (thorough 9), every byte, echo, echo length and adapter result symbolic, 8 capability sets')
H('C01', 'msg', 'h_msg.c', RAWL, defs=L2('diag_l2_proto_raw'), unwind=70,
  shapes=[dict(LENS=l, OFF=o, OOM=m) for l, o, ms in (('1', 0, (0, 1, 2)), ('0,3', 0, (0, 1, 2, 4)), ('2,0,5', 4, (0, 1, 2, 4, 8, 16)), ('12,1,2', 3, (0, 1, 2, 4, 8, 16, 32))) for m in ms] + [dict(LENS='64', OFF=3, OOM=0)],
  shapes_t=[dict(LENS='4000', OFF=0, OOM=0), dict(LENS='255,255,255', OFF=4, OOM=0)],
  bounds='chains of up to 3 messages of 0..64 bytes, window offsets 0..4, every single allocation failure')

# ---- ISO14230 requests ------------------------------------------------------
_q = lambda *l: ','.join('"%s"' % x for x in l)
_seqs = [('P',), ('T',), ('O',), ('S',), ('M',), ('U',), ('N', 'P'), ('NP',), ('N', 'T'), ('N', 'O'), ('NNP',), ('N', 'N', 'N', 'N', 'P'), ('B', 'P'), ('BP', 'P'), ('B', 'B', 'P'),
         ('B', 'B', 'B', 'P'), ('B', 'B', 'B', 'B', 'P'), ('B', 'N', 'P'), ('N', 'B', 'P'), ('NB', 'P'), ('PP',), ('PO',), ('OP',), ('PN',), ('PU',), ('PM',), ('NU', 'P'), ('B', 'T'), ('NPP',), ('B', 'B', 'B', 'T'), ('B', 'U')]
H('C08', 'iso14230_req', 'h_iso14230_req.c', CORE + ['diag_l2_iso14230.c'], defs=L2('diag_l2_proto_iso14230'), unwind=60,
  shapes=[dict(SEQ1=_q(*s), SEQ2=_q('P' if i % 3 else 'T')) for i, s in enumerate(_seqs)] +
  [dict(SEQ1=_q('O'), SEQ2=_q('N', 'O'), NEG2=v) for v in (0x10, 0x20, 0x22, 0x77, 0x79, 0x23, 0)] +
  [dict(SEQ1=_q('P'), SEQ2=_q('P'), POS0=v, PLEN=l) for v, l in ((0x7e, 1), (0x80, 2), (0, 3), (0x41, 1), (0xff, 8))] +
  [dict(SEQ1=_q('B', 'B', 'P'), SEQ2=_q('P'), SF=k) for k in (1, 2, 3)],
  shapes_t=[dict(SEQ1=_q(*s), SEQ2=_q(*t)) for s in _seqs for t in _seqs[:20]] + [dict(SEQ1=_q('O'), SEQ2=_q('N', 'O'), NEG2=v) for v in range(256) if v not in (0x21, 0x78)],
  bounds='reply sequences of up to 5 receptions of up to 3 frames followed by a second request; request, payload and addresses symbolic')

_req = [dict(SENDS=1, EV='0'), dict(SENDS=1, EV='6')] + [dict(SENDS=0, EV=e) for e in ('0', '-3', '-13', '6', '2', '1,-3', '6,-13', '2,0', '12')] + [dict(SENDS=0, EV='6', OOM=m) for m in (1, 2, 4)]
for _n, _src, _pr, _pp, _pn in (('raw', 'diag_l2_raw.c', 'raw', 'DIAG_L1_RAW', 'DIAG_L2_PROT_RAW'), ('iso9141', 'diag_l2_iso9141.c', 'iso9141', 'DIAG_L1_ISO9141', 'DIAG_L2_PROT_ISO9141'), ('j1850', 'diag_l2_saej1850.c', 'saej1850', 'DIAG_L1_J1850_VPW', 'DIAG_L2_PROT_SAEJ1850')):
    H('C05', 'req_' + _n, 'h_req.c', CORE + [_src], defs=dict(L2('diag_l2_proto_' + _pr), L1P=_pp, P=_pn, GOODHDR=int(_n == 'iso9141')), unwind=40,
      shapes=[dict(r, L1F=f) for r in _req for f in (_f(), _f('DOESL2FRAME', 'STRIPSL2CKSUM'))], bounds='a request answered by up to 2 bursts of up to 12 bytes, silence or any error; sending failing with any error; one failing allocation')

# ---- ISO9141, J1850 ---------------------------------------------------------
def H91(prop, name, p91, unwind=40, **kw):
    H(prop, name, 'h_9141_1850.c', CORE + ['diag_l2_iso9141.c' if p91 else 'diag_l2_saej1850.c'],
      defs=dict(L2('diag_l2_proto_iso9141' if p91 else 'diag_l2_proto_saej1850'), PROTO9141=p91), unwind=unwind, **kw)


_tx = lambda ns, extra=(): [dict(L1F=f, TXN=n, BURSTS=1, GOODHDR=1, **x) for n in ns for f in (_f(), _f('DOESL2CKSUM'), _f('DATAONLY')) for x in (extra or [{}])]
_b = lambda *l: ','.join(map(str, l))
_rx91 = [dict(L1F=f, BURSTS=_b(*bs), GOODHDR=g, SPLIT=sp) for f in (_f(), _f('DOESL2FRAME'), _f('DOESL2FRAME', 'STRIPSL2CKSUM'))
         for bs in ((1,), (2,), (4,), (5,), (7,), (11,), (6, 8), (5, 6, 11), (11, 3)) for g in (1,) for sp in (0,)]
_rx91 += [dict(L1F=f, BURSTS=_b(*bs), GOODHDR=1, H0=a, H1=b) for f in (_f(), _f('DOESL2FRAME')) for bs in ((2,), (6,), (6, 12)) for a, b in ((0x48, 0x6A), (0x49, 0x6B), (0x68, 0x6A), (0, 0), (0x6B, 0x48))]
_rx91 += [dict(L1F=_f('DOESL2FRAME', 'NOHDRS', *s), BURSTS=_b(*bs), GOODHDR=0) for s in ((), ('STRIPSL2CKSUM',)) for bs in ((1,), (2,), (7, 3))]
_rx91 += [dict(L1F=_f(), BURSTS=_b(*bs), GOODHDR=1, SPLIT=sp) for bs, sp in (((12,), 0), ((22,), 0), ((33,), 0), ((27,), 0), ((9,), 1), ((22,), 5), ((20, 11), 11), ((13,), 12))]
_rx91 += [dict(L1F=f, BURSTS=_b(*bs), GOODHDR=1, ERRAT=1) for f in (_f(), _f('DOESL2FRAME')) for bs in ((6,), (6, 7))]
_rx91 += [dict(L1F=_f('NOHDRS'), BURSTS='6', GOODHDR=1)]
H91('C10', 'iso9141', 1, shapes=_tx((0, 1, 4, 7, 8, 9)) + _rx91,
    shapes_t=[dict(L1F=f, BURSTS=_b(*bs), GOODHDR=1, SPLIT=sp) for f in (_f(), _f('DOESL2FRAME')) for bs in [(n,) for n in range(1, 12)] + [(5, 7, 9), (11, 11, 11), (11, 5, 8, 6)] for sp in (0, 1, 3, 7) if not (sp and f != _f())] + _tx(range(0, 12)),
    bounds='payloads 0..9 sent; up to 3 response bursts of 1..33 bytes received; contents, addresses symbolic')
_rx18 = [dict(L1F=_f('DOESL2FRAME', *s), BURSTS=_b(*bs), GOODHDR=0) for s in ((), ('STRIPSL2CKSUM',), ('NOHDRS',), ('NOHDRS', 'STRIPSL2CKSUM'))
         for bs in ((1,), (3,), (4,), (5,), (11,), (12,), (6, 8), (2, 6), (5, 6, 11))]
_rx18 += [dict(L1F=_f('DOESL2FRAME'), BURSTS=_b(*bs), GOODHDR=0, ERRAT=1) for bs in ((6,), (6, 7))] + [dict(L1F='0', BURSTS='6', GOODHDR=0, ERRAT=1)]
H91('C12', 'j1850', 0, unwind=300, shapes=_tx((0, 1, 7, 8, 20), [dict(PWM=0), dict(PWM=1)]) + [dict(L1F=f, TXN=n, BURSTS=1, GOODHDR=0, **x) for f, n, x in ((_f('DATAONLY'), 1019, {}), (_f('DOESL2CKSUM'), 1019, {}), (_f(), 1020, {}), (_f(), 260, dict(CONSTPAY=1)))] + _rx18,
    shapes_t=_tx(range(0, 13), [dict(PWM=0), dict(PWM=1)]) + [dict(L1F=_f('DOESL2FRAME'), BURSTS=_b(*bs), GOODHDR=0) for bs in [(n,) for n in range(1, 40, 2)] + [(12, 12, 12), (5, 12, 7, 6)]],
    bounds='payloads 0..20, 255, 1019 sent; up to 3 responses of 1..12 bytes received; contents, addresses symbolic')
ALL[-1].unwindset = []

H('C12', 'crc1850', 'h_crc1850.c', CORE + ['diag_l2_saej1850.c'], defs=L2('diag_l2_proto_saej1850'), unwind=300,
  shapes=[dict(N=n, S=0, K=n) for n in (0, 1, 2, 3, 4)] + [dict(N=11, S=s, K=2) for s in (0, 2, 4, 6, 8, 9)] + [dict(N=260, S=258, K=2)],
  shapes_t=[dict(N=5, S=0, K=5), dict(N=6, S=0, K=6)] + [dict(N=12, S=s, K=3) for s in range(10)], bounds='CRC of up to 4 fully symbolic bytes, 11 and 260 bytes with 2 symbolic ones')

# ---- handshakes --------------------------------------------------------------
_SLOW, _FAST, _MON, _CARB = ('DIAG_L2_TYPE_%sINIT' % x for x in ('SLOW', 'FAST', 'MON', 'CARB'))


def HI(prop, name, p14, **kw):
    H(prop, name, 'h_init.c', CORE + ['diag_l2_iso14230.c' if p14 else 'diag_l2_iso9141.c'],
      defs=dict(L2('diag_l2_proto_iso14230' if p14 else 'diag_l2_proto_iso9141'), P14=p14), unwind=40, **kw)


def _fx(*l):
    return ','.join('{%d,%d}' % x for x in l)


_common = [dict(TYPE=_SLOW, L1F=_f('DOESFULLINIT'), REPLY='0'), dict(TYPE=_SLOW, L1F=_f('DOESFULLINIT'), REPLY='0', INITRV=-3), dict(TYPE=_SLOW, L1F='0', REPLY='0', INITRV=-5),
           dict(TYPE=_SLOW, L1F='0', REPLY='2,1', SPEEDRV=-2), dict(TYPE=_MON, L1F='0', REPLY='0'), dict(TYPE=_CARB, L1F='0', REPLY='0')]
_c09 = [dict(x, FULL=1) if x['L1F'] == _f('DOESFULLINIT') or x['TYPE'] == _MON else x for x in _common]
for l1 in (_f(), _f('DOESSLOWINIT')):
    _c09 += [dict(TYPE=_SLOW, L1F=l1, REPLY=r, FUNC=fu) for r in ('2,1', '1', '0', '-10', '2,0', '2,-10') for fu in (0, 1) if not (l1 != '0' and r.startswith('2,') and r != '2,1')]
_c09 = [dict(s, REPLY='2') if s['L1F'] == _f('DOESSLOWINIT') and s['REPLY'] == '2,1' else s for s in _c09]
_c09 += [dict(TYPE=_SLOW, L1F='0', REPLY='2,1', SENDRV=-4), dict(TYPE=_SLOW, L1F='0', REPLY='2,1', DRAIN=2), dict(TYPE=_SLOW, L1F='0', REPLY='2,1', DRAINERR=1)]


def _goodsc(fmt, k1, k2=0x8f):
    """a whole valid StartCommunication response to tester F1 from ECU 33"""
    b = [fmt] + ([0xF1, 0x33] if fmt & 0x80 else []) + [0xC1, k1, k2]
    b.append(sum(b) & 255)
    return dict(REPLY='%d,0' % len(b), FIX=_fx(*enumerate(b)))


for k in range(16):
    _c09.append(dict(TYPE=_FAST, L1F='0', SENDKB=k, FUNC=k & 1, FULL=1, **_goodsc(0x83, k)))
    if k & 1:
        _c09.append(dict(TYPE=_SLOW, L1F=_f('DOESSLOWINIT'), REPLY='2', FIX=_fx((0, k | 0x80), (1, 0x8f)), SENDKB=k, FULL=1))
        _c09.append(dict(TYPE=_SLOW, L1F='0', REPLY='2,1', FIX=_fx((0, k), (1, 0x8f), (2, 0xcc)), SENDKB=k, FUNC=1, FULL=1))
for l1 in (_f(), _f('DOESL2FRAME'), _f('DOESL2CKSUM')):
    _c09 += [dict(TYPE=_FAST, L1F=l1, FUNC=0, FULL=1, **_goodsc(f, 0x8f)) for f in (0x83, 0xC3, 3)]
    for fu in (0, 1):
        _c09 += [dict(TYPE=_FAST, L1F=l1, FUNC=fu, REPLY='%d,0' % n, FIX=_fx((0, f), (0 + (3 if f & 0x80 else 1), sv)))
                 for f, n in ((0x83, 7), (0xC3, 7), (0x81, 5), (0x82, 6), (0x84, 8), (3, 5), (1, 3)) for sv in (0xC1, 0x7F, 0x81, 0xC0) if not (sv in (0x81, 0xC0) and n != 7)]
        _c09 += [dict(TYPE=_FAST, L1F=l1, FUNC=fu, REPLY=r, FIX=_fx((0, f))) for r, f in (('0', 0x83), ('-10', 0x83), ('2,0', 0x83), ('6,0', 0x83), ('7,0', 0x43)) if not (l1 == _f('DOESL2FRAME') and r in ('6,0', '7,0'))]
_c09 += [dict(TYPE=_FAST, L1F=_f('DOESFULLINIT'), REPLY='0', FULL=1), dict(TYPE=_FAST, L1F='0', REPLY='0', INITRV=-5), dict(TYPE=_FAST, L1F='0', REPLY='7,0', SENDRV=-5)]
_c09 += [dict(TYPE=_FAST, L1F='0', FUNC=1, REPLY='2,5,0', FIX=_fx((0, 0x83), (3, 0xC1))), dict(TYPE=_FAST, L1F='0', FUNC=0, REPLY='7,0,0', FIX=_fx((0, 0x83), (3, 0xC1)), DRAIN=3)]
HI('C09', 'iso14230_init', 1, shapes=_c09, shapes_t=[dict(TYPE=_FAST, L1F='0', FUNC=0, REPLY='%d,0' % (n + 4), FIX=_fx((0, 0x80 | n), (3, sv))) for n in range(1, 20) for sv in (0xC1, 0x7f, 0)],
   bounds='all handshake byte values and truncations; addresses symbolic; key byte kinds 0..15')
_c11 = list(_common) + [dict(TYPE=_SLOW, L1F=l1, REPLY=r, FIX=_fx((0, k), (1, k), (2, 0xcc)), FULL=1) for l1, r in ((_f(), '1,1,1'), (_f('DOESSLOWINIT'), '1,1')) for k in (0x08, 0x94)]
for l1 in (_f(), _f('DOESSLOWINIT')):
    _c11 += [dict(TYPE=_SLOW, L1F=l1, REPLY=r) for r in ('1,1,1', '0', '-10', '1,0', '1,-10', '1,1,0', '1,1,-10') if not (l1 != '0' and r.startswith('1,1,'))]
_c11 += [dict(TYPE=_SLOW, L1F=_f('DOESSLOWINIT'), REPLY='1,1'), dict(TYPE=_SLOW, L1F='0', REPLY='1,1,1', SENDRV=-4), dict(TYPE=_FAST, L1F='0', REPLY='0')]
HI('C11', 'iso9141_init', 0, shapes=_c11, bounds='all handshake byte values, silences and adapter errors; target address symbolic')

# ---- RAW ---------------------------------------------------------------------
H('C16', 'raw', 'h_raw.c', RAWL, defs=L2('diag_l2_proto_raw'), unwind=1100,
  shapes=[dict(OP="'s'", TXN=n, RXN=0, SRV=s) for n in (1, 12, 255, 300) for s in (0, -3)] + [dict(OP="'r'", TXN=1, RXN=n) for n in (1, 2, 255, 256, 300, 1024, 0, -10, -3)] +
  [dict(OP="'q'", TXN=4, RXN=n, SRV=s, OOM=o) for n in (1, 7, 8, 9, 300, 0, -10, -3) for s, o in ((0, 0), (-3, 0), (0, 1), (0, 2)) if not (s and n != 7) and not (o and n not in (9,))],
  shapes_t=[dict(OP="'q'", TXN=n, RXN=m) for n in range(1, 64, 7) for m in range(1, 300, 17)], bounds='1..300 bytes sent, 1..1024 received, adapter errors and allocation failures')

# ---- MB1 ---------------------------------------------------------------------
_mbrx = [dict(FR=n, LENB=l, EV=e) for n, l, e in ((5, 5, '5'), (6, 6, '3,3'), (9, 9, '1,2,1,5'), (20, 20, '20'), (255, 255, '3,252'), (64, 64, '64'),
         (7, 10, '7'), (10, 10, '3,6,0,1'), (8, 6, '8'), (3, 4, '3'), (4, 4, '4'), (3, 3, '3'), (3, 0, '3'), (5, 1, '5'), (2, 0, '2'), (1, 0, '1'), (6, 6, '2,4'), (6, 6, '3,-10'), (9, 9, '-3'), (3, 9, '3,-3'), (254, 255, '254'))]
for x in _mbrx:
    x['_unwind'] = max(x['FR'], 9) + 6
H('C15', 'mb1', 'h_mb1.c', CORE + ['diag_l2_mb1.c'], defs=L2('diag_l2_proto_mb1'), unwind=300,
  shapes=[dict(OP="'i'", KB=k) for k in ('1,1', '1,0', '0,0', '-10,0', '1,-10')] + [dict(OP="'i'", **k) for k in (dict(INITRV=-5), dict(SPEEDRV=-2), dict(BAUD=4800))] +
  [dict(OP="'s'", TXN=n, SRV=s) for n in (0, 1, 2, 20, 251, 252, 300) for s in (0, -3) if not (s and n != 2)] +
  [dict(OP="'r'", **x) for x in _mbrx] + [dict(OP="'q'", **x) for x in _mbrx[:10] if x['FR'] < 100] + [dict(OP="'q'", SRV=-3), dict(OP="'q'", OOM=1, **_mbrx[1]), dict(OP="'q'", OOM=2, **_mbrx[1]), dict(OP="'r'", OOM=1, **_mbrx[1]), dict(OP="'t'", **_mbrx[1]), dict(OP="'t'", SRV=-3)],
  shapes_t=[dict(OP="'q'", FR=n, LENB=l, EV='%d,%d' % (s, n - s), _unwind=40) for n in range(5, 24) for l in (n - 1, n, n + 1) for s in (1, 3, 4)] + [dict(OP="'s'", TXN=n) for n in range(3, 251, 13)],
  bounds='requests of 0..300 bytes, responses of up to 255 bytes in up to 4 pieces, every length byte class, all contents')

# ---- D2 ----------------------------------------------------------------------
_FI, _CK, _KA = 'DOESFULLINIT', 'DOESL2CKSUM', 'DOESKEEPALIVE'
_op = lambda c: "'%s'" % c
H('C14', 'd2', 'h_d2.c', CORE + ['diag_l2_d2.c'], defs=L2('diag_l2_proto_d2'), unwind=70,
  shapes=[dict(OP=_op('i'), **x) for x in (dict(), dict(L1F=_f(_FI)), dict(L1F=_f(_CK)), dict(L1F='0'), dict(TYPE=_FAST), dict(TYPE=_MON), dict(INITRV=-5), dict(SPEEDRV=-2), dict(WMRV=-2))] +
  [dict(OP=_op('s'), TXN=n, SRV=s, OWNADDR=o) for n in (0, 1, 5, 62, 63, 90) for s in (0, -3) for o in (0, 1) if not (s and n != 5) and not (o and n not in (5,))] +
  [dict(OP=_op('r'), RX=r, OOM=o) for r, o in (('5', 0), ('6', 0), ('20', 0), ('66', 0), ('0', 0), ('-10', 0), ('1', 0), ('4', 0), ('6', 1), ('6', 2))] +
  [dict(OP=_op('q'), RX=r) for r in ('5', '6', '8', '20', '66', '0', '-10', '4', '1', '7', '107,6', '107,107,7', '107,0', '107,-10', '107,3', '107,107,107,107,9')] +
  [dict(OP=_op('q'), RX='6', OOM=o) for o in (1, 2, 4, 8)] + [dict(OP=_op('q'), RX='107,6', OOM=o) for o in (16, 64)] + [dict(OP=_op('q'), RX='7', REQ0=0x40), dict(OP=_op('q'), RX='6', SRV=-3)] +
  [dict(OP=_op('t'), RX='6'), dict(OP=_op('t'), RX='0'), dict(OP=_op('t'), SRV=-3), dict(OP=_op('x'), RX='5', STOPIT=1), dict(OP=_op('x'), RX='0', STOPIT=1), dict(OP=_op('x'), SRV=-5, STOPIT=1)],
  shapes_t=[dict(OP=_op('q'), RX=str(n), TXN=t, OWNADDR=1) for n in range(5, 67) if n != 7 for t in (1, 62)],
  bounds='requests of 0..90 bytes, responses of up to 66 bytes, up to 4 "in progress" replies, all contents and addresses')

# ---- KWP1281 -------------------------------------------------------------------
_s = lambda x: '"%s"' % x
_vg = [dict(OP=_op('s'), SCRIPT=_s('q'), RN=n, SYM=1, OUT=1) for n in (0, 1, 2)] + [dict(OP=_op('s'), SCRIPT=_s('q'), RN=n, OUT=1) for n in (3, 12)] + [dict(OP=_op('s'), SCRIPT=_s('q'), RN=60, OUT=1, MAXS=200)]
_vg += [dict(OP=_op('s'), SCRIPT=_s(x), CUT=k, OUT=o) for x, o in (('wq', 1), ('oq', 1), ('wowq', 1), ('wwww', 0), ('oooo', 0), ('x', 0), ('y', 0), ('wx', 0)) for k in (0, 2, 4) if not (k == 0 and x == 'y')]
_vg += [dict(OP=_op('s'), SCRIPT=_s(''), RN=253, OUT=0)]
_vg += [dict(OP=_op('q'), SCRIPT=_s('q' + x), OUT=o) for x, o in (('dAa', 1), ('a', 1), ('dAdAa', 1), ('dAdAdAa', 1), ('nqdAa', 1), ('nqnqa', 1), ('nqnqnqnqn', 0), ('nqnqnqnqa', 1), ('N', 1), ('z', 1),
         ('dAnAa', 1), ('dANAa', 1), ('dAzAa', 1), ('dAnAnAnAnAn', 0), ('dAnAdAnAa', 1), ('eKdAa', 1), ('sKdAa', 1), ('lKdAa', 1), ('dAeKa', 1), ('LAa', 1), ('rAa', 1), ('dArAa', 1), ('t', 0), ('E', 0), ('i', 0),
         ('dAt', 0), ('dAE', 0), ('dAi', 0), ('dwAa', 1), ('doooo', 0), ('eKt', 0), ('eKeKdAa', 1))]
_vg += [dict(OP=_op('q'), SCRIPT=_s('qdAa'), DN=n, OUT=1) for n in (0, 1, 12)] + [dict(OP=_op('q'), SCRIPT=_s('qi'), CUT=k, OUT=0) for k in (2, 3, 4)] + [dict(OP=_op('q'), SCRIPT=_s('qrAa'), CUT=k, OUT=1) for k in (2, 4)]
_vg += [dict(OP=_op('q'), SCRIPT=_s(x), OUT=o, AGAIN=1) for x, o in (('qdAa', 1), ('qt', 0))]
_vg = [x for x in _vg if not (x.get('AGAIN') and x['OUT'])]
_vg += [dict(OP=_op('q'), SCRIPT=_s(x), START=b, OUT=1) for x in ('qdAa', 'nqdAa', 'qnqa') for b in (0xFB, 0xFD, 0xFF) if x != 'nqdAa']
_vg += [dict(OP=_op('q'), SCRIPT=_s('q' + x), L1F=_f('DOESL2FRAME'), OUT=o) for x, o in (('dAa', 1), ('a', 1), ('t', 0), ('dAdAa', 1), ('nqa', 1))]
_vg += [dict(OP=_op('b'), SCRIPT=_s('q' + x), OUT=o) for x, o in (('dAa', 1), ('a', 1), ('n', 1), ('N', 1), ('t', 0), ('dAdAa', 1))]
_vg += [dict(OP=_op('k'), SCRIPT=_s(x), OUT=1) for x in ('Aa', 'At', 'AdAa', 'ooooA', 'yA')]
_vg += [dict(OP=_op('i'), INITSCRIPT=_s(x), OUT=o) for x, o in (('dAa', 1), ('dAdAdAa', 1), ('T', 0), ('E', 0), ('i', 0), ('dAt', 0), ('eKdAa', 1), ('a', 1))]
_vg += [dict(OP=_op('i'), INITSCRIPT=_s(''), KBT=_s(x), OUT=0) for x in ('T', 'E', 'RT', 'RE')] + [dict(OP=_op('i'), INITSCRIPT=_s(''), KBT=_s(''), OUT=0, **x) for x in (dict(INITRV=-5), dict(SPEEDRV=-2))] + [dict(OP=_op('i'), L1F=_f('DOESSLOWINIT'), OUT=1)]
H('C13', 'vag', 'h_vag.c', CORE + ['diag_l2_vag.c'], defs=L2('diag_l2_proto_vag'), unwind=70, shapes=[dict({'SCRIPT': _s('')}, **x) for x in _vg],
  bounds='blocks of 0..60 data bytes, telegrams of up to 3 blocks, up to 5 refused blocks, failures at every kind of byte; block counters across the wrap')

# ---- links and connections ------------------------------------------------------
_A1 = ['o', 'o!', 'o-', 'p', 'q', 'c', 's', 's!', 's-', 'sm', 't', 't!', 'u', 'x', 'k']
_A2 = ['O', 'O!', 'P', 'C', 'S', 'S!', 'S-', 'T', 'X', 'k', 'o', 'c', 's', 's!', 'x']
_hist = [a + b for a in _A1 for b in _A1 if a in ('o!', 'o-', 'q', 'c', 's', 'x')]
_hist += ['o' + a + b for a in _A1 for b in _A1 if a != 'o' and a not in ('p', 'q', 'o!', 'o-')]
_hist += ['os' + a + b for a in _A1 for b in _A1 if a in ('c', 's', 'x', 'k', 'p')]
_hist += ['osOS' + a + b for a in _A2 for b in _A2 if a in ('X', 'C', 'x', 'k', 'S')] + ['oPT' + a + b for a in _A2 for b in _A2 if a in ('s', 'c', 'X', 's!', 'T')]
_hist += ['os?xcosx'.replace('?', y) + z for y in ('', 'm') for z in ('c', 's!c', 'tkx')] + ['osOSxsX', 'osOSkxkXk', 'oOsSXSx', 'os!s!sxs-s']


def _chunks(l, n, k='HIST', j=' '):
    return [{k: _s(j.join(l[i:i + n]))} for i in range(0, len(l), n)]


_hall = [a + b + c for a in ('o', 'p') for b in _A1 for c in _A1] and [a + b + c + d for a in ('o', 'p') for b in _A1 for c in _A1 for d in _A1]
H('C03', 'hist', 'h_hist.c', CORE, defs={}, unwind=400, shapes=_chunks(_hist, 12), shapes_t=_chunks(_hall, 20),
  bounds='histories of up to 8 operations on two adapters and two protocols, each operation succeeding or failing with any error or for lack of memory (over %d histories, %d thorough); handshake parameters and codes symbolic' % (len(_hist), len(_hall)))

# ---- keep-alive, errors -----------------------------------------------------------
_CORE3 = CORE + ['diag_l3.c']
_ev = ['tt', 'st', 'rt', 'qt', 'srqt', 'tst', 'trqt', 'SRQt', 'tQt', 'sQrt', 'tSst']
_tm = [dict(EV=_s(x)) for x in _ev] + [dict(EV=_s(x), HS=1) for x in ('tt', 'stt', 'ttt')] + [dict(EV=_s('stqt'), NOHND=1), dict(EV=_s('stQt'), TYPE='DIAG_L2_TYPE_MONINIT'), dict(EV=_s('stQt'), TYPE='DIAG_L2_TYPE_FASTINIT'),
       dict(EV=_s('stQt'), TYPE='(DIAG_L2_TYPE_FASTINIT|DIAG_L2_TYPE_FUNCADDR)'), dict(EV=_s('stQt'), L1F=_f('DOESKEEPALIVE')), dict(EV=_s('stQt'), L1F=_f('DOESL2FRAME'))] + [dict(EV=_s(x), TWO=t) for x in ('t', 'stqt') for t in (1, 2)]
H('C04', 'timer', 'h_timer.c', _CORE3, defs={'VP_OWN_CLOCK': 1}, unwind=20, shapes=_tm, shapes_t=[dict(EV=_s(''.join(x) + 't')) for x in __import__('itertools').product('srqQt', repeat=4)],
  bounds='up to 5 events (requests, sends, receives at L2 or L3, keep-alive ticks), every clock value, duration, interval and outcome')
_C3 = _CORE3 + ['diag_l3_iso14230.c', 'diag_l3_vag.c']
_er = [dict(OP=_op(o)) for o in 'srqSRQUV'] + [dict(OP=_op('i'), IOC=i, L1F=f) for i in ('DIAG_IOCTL_SETSPEED', 'DIAG_IOCTL_IFLUSH', 'DIAG_IOCTL_SETWM', 'DIAG_IOCTL_INITBUS', '0x7777')
       for f in (0, _f('AUTOSPEED'), _f('NOTTY'), _f('DOESKEEPALIVE'))]
FMT = dict(env=('vp_bus.c', 'vp_fmt.c'), rename=('snprintf', 'strlen', 'strncat'))
H('C05', 'errs', 'h_errs.c', _C3, defs={}, unwind=60, **FMT, shapes=_er, bounds='one operation at L2, or L3 over L2, with every return value and error code below it')

# ---- text ----------------------------------------------------------------------------
_TX = ['diag_general.c', 'diag_l0.c', 'diag_l1.c', 'diag_l2.c', 'diag_l3.c', 'diag_l3_saej1979.c', 'diag_l3_iso14230.c', 'diag_l3_vag.c']
def _tx(d, a, b, n, **k): return dict(DEC=_op(d), FIRST=a, LAST=b, LEN=n, **k)
_t18 = [_tx('j', 1, 9, n) for n in (1, 2, 3, 4, 7)] + [_tx('j', a, a, n) for a in (0x41, 0x42, 0x45, 0x46, 0x48, 0x49) for n in (1, 2, 3, 4, 7)] + [_tx('j', a, a, n) for a in (0x43, 0x47) for n in (1, 2, 3)]
_t18 += [_tx('j', a, a, 7, ZERO=z, SECOND=x) for a in (0x43, 0x47) for z in range(8) for x in (0x0A, 0xF5)]
_t18 += [_tx('j', 0x44, 0x44, n) for n in (1, 2)] + [_tx('j', a, a, n) for a in (0, 0x0A, 0x40, 0x4A, 0xFF) for n in (1, 4)] + [_tx('j', a, a, n) for a in (0x41, 0x7F) for n in (16, 30)] + [_tx('j', 0, 0, 0)]
_t18 += [_tx('i', 0, 0, 0)] + [_tx('i', 0, 0xFF, n, STEP=51) for n in (1, 2)]
_t18 += [_tx('r', 0, 0, 0)] + [_tx('r', a, a + 15, 1) for a in range(0, 256, 32)] + [_tx('r', 0x50, 0x7E, 3, STEP=3), _tx('r', 0xC1, 0xC3, 2), _tx('r', 0x5A, 0x61, 2, STEP=7), _tx('r', 0x5A, 0x61, 1, STEP=7)]
_t18 += [_tx('r', a, b, 3, CODES=1) for a, b in ((0, 2), (0x10, 0x13), (0x20, 0x23), (0x31, 0x33), (0x34, 0x37), (0x40, 0x43), (0x50, 0x53), (0x71, 0x74), (0x75, 0x78), (0x80, 0x81), (0x9A, 0x9B), (0xFE, 0xFF))] + [_tx('r', 0x11, 0x11, n, CODES=1) for n in (1, 2, 4)]
_t18t = [_tx('j', a, a, n) for a in (0x43, 0x47) for n in (4, 6)] + [_tx('r', a, a + 3, 3, CODES=1) for a in range(0, 256, 4)] + [_tx('v', a, a, n, DIGS=d) for a in list(range(13)) + [0x21, 0xE7, 0xF4, 0xF6, 0xFC] for n in (1, 8) for d in (0, 0x5A, 0xA5, 0xFF)]
_t18 += [_tx('v', a, a, n, DIGS=1) for a, n in ((0, 0), (1, 1), (5, 3), (6, 3), (7, 2), (8, 2), (0x10, 3), (0xE7, 3), (0xF4, 3), (0xF6, 6), (0xFC, 6))] + [_tx('v', 5, 5, n) for n in (12, 30)]
_t18 += [_tx('j', 0x41, 0x41, 7, BUF=b) for b in (1, 2, 16, 40, 60)] + [_tx('r', 0x11, 0x11, 3, CODES=1, BUF=b) for b in (1, 2, 30, 50)] + [_tx('v', 5, 5, 6, BUF=b) for b in (1, 14, 30)]
H('C18', 'text', 'h_text.c', _TX, defs=L2('diag_l2_proto_raw') and {}, repo_defs={}, unwind=300, shapes=_t18, shapes_t=_t18t, **dict(FMT, env=('vp_bus.c', 'vp_fmt.c', 'vp_nol2.c')),
  bounds='messages of 0..7, 16 and 30 bytes, text buffers of 1..256 bytes; service and reason bytes enumerated over all 256 values, all other bytes symbolic')
_t20 = [dict(LEN=n, BUF=b, PROTO='dtc_proto_j2012') for n in (0, 1, 2, 3) for b in (1, 2, 5, 6, 7, 16, 128)] + [dict(LEN=2, BUF=b, PROTO=p) for b in (1, 9, 64) for p in ('dtc_proto_int8', 'dtc_proto_int16', 'dtc_proto_int32', 'dtc_proto_text', '99')]
H('C20', 'dtc', 'h_dtc.c', ['diag_dtc.c'], defs={}, unwind=140, shapes=_t20, env=('vp_fmt.c',), rename=('snprintf',), bounds='codes of 0..3 bytes, buffers of 1..128 bytes, every protocol; all 65536 codes and all pairs of codes symbolic')

# ---- OBD-II application protocol ---------------------------------------------------
_P41 = [0, 1, 3, 4, 5, 6, 9, 0x0A, 0x0B, 0x0C, 0x0D, 0x0F, 0x10, 0x11, 0x13, 0x14, 0x1B, 0x1C, 0x1D, 0x1E, 0x1F, 0x20, 0x55, 0x58, 0xC0]
def j1979_len(s, p):
    if s < 10: return (0, 2, 3, 1, 1, 3, 2, 1, 7, 2)[s]
    if s in (0x43, 0x46, 0x47, 0x48): return 7
    if s == 0x44: return 1
    if s == 0x45: return 7 if p % 32 == 0 else 4 if p <= 4 else 6
    if s == 0x49: return 7 if p % 32 == 0 or p % 2 == 0 else 3
    if s in (0x41, 0x42):
        f = s == 0x42
        if p % 32 == 0: l = 4
        elif p == 1: l = 0 if f else 4
        elif p == 2: l = 2 if f else 0
        elif p in (3, 0x0C, 0x10, 0x1F) or 0x14 <= p <= 0x1B: l = 2
        elif 4 <= p <= 0x13 or 0x1C <= p <= 0x1E or 0x55 <= p <= 0x58: l = 1
        else: l = 0
        return 2 + f + l if l else 0
    return 0
def _ju(resp, evs=None, tail=0, **k):
    n = sum(j1979_len(*r) or 2 for r in resp) + tail
    return dict(OP=_op('u'), RESP=','.join('0x%x,0x%x' % r for r in resp), EVS=','.join(map(str, evs or [n])), TAIL=tail, **k)
_all17 = [(0x41, p) for p in _P41] + [(0x42, p) for p in _P41 if p != 1] + [(0x42, 2), (0x43, 1), (0x44, 0), (0x45, 0), (0x45, 1), (0x45, 4), (0x45, 5), (0x45, 0x40), (0x46, 0), (0x46, 5), (0x47, 3), (0x48, 1), (0x49, 0), (0x49, 1), (0x49, 2), (0x49, 4), (0x49, 5), (0x49, 0x20)] + [(s, 0) for s in range(1, 10)]
_j17 = [_ju([a, (0x41, 0x0C)]) for a in _all17]
_pairs = [[(0x41, 0x0C), (0x43, 7)], [(0x43, 1), (0x43, 2), (0x41, 5)], [(0x42, 2), (0x44, 0), (0x41, 0)], [(0x49, 2), (0x49, 2), (0x49, 1)]]
for r in _pairs:
    n = sum(j1979_len(*x) for x in r)
    _j17 += [_ju(r, [1] * n), _ju(r, [n - 1, 0, 0, 1]), _ju(r, [3, -7, n - 3]), _ju(r, [2, 0, 0, 0, 3, 0, n - 5]), _ju(r, [0, n]), _ju(r, [n], 0)]
    _j17 += [_ju(r, [n + 3], 3), _ju(r, [n - 2, 4], 2)]
_j17 += [_ju([(0x41, 0x0C), x]) for x in ((0x41, 0x21), (0x42, 1), (0x4A, 0), (0x0A, 0), (0, 0), (0xFF, 0x41), (0x40, 1), (0x7F, 1))]
_j17 += [dict(OP=_op('f'), LENS=l, RRV=r, L2F='DIAG_L2_FLAG_FRAMED') for l, r in (('0', 0), ('6', 0), ('7,3,0', 0), ('7', -5), ('7', 'DIAG_ERR_TIMEOUT'))]
_j17 += [dict(OP=_op('t'), L2F=f) for f in (0, 'DIAG_L2_FLAG_FRAMED', 'DIAG_L2_FLAG_KEEPALIVE')] + [dict(OP=_op('s'), KA=k) for k in (0, 1, 2, -3, 'DIAG_ERR_TIMEOUT')] + [dict(OP=_op('w'))]
_j17 += [_ju([(0x41, 0x0C)], [1030, 4], DROP=1030, BYTES=1040, _unwind=1045)]
_t17 = [_ju([(0x41, 0x0C), (x, 0)]) for x in range(256)] + [_ju([(x, p), (0x41, 0x0C)]) for x in (0x41, 0x42, 0x45, 0x49) for p in range(256)]
H('C17', 'j1979', 'h_j1979.c', ['diag_general.c', 'diag_l0.c', 'diag_l1.c', 'diag_l2.c', 'diag_l3.c', 'diag_l3_saej1979.c'], defs={}, unwind=40, shapes=_j17, shapes_t=_t17,
  **FMT, bounds='streams of up to 3 responses of every service and parameter SAE J1979 gives a length, every piecewise arrival pattern listed, contents symbolic; unknown services and parameters (all of them in the thorough tier)')

# ---- application layer -------------------------------------------------------------
def _l7(f, n, **k): return dict(FN=_op(f), LEN=n, **k)
_s19 = [_l7(f, n) for f in 'pouP' for n in (-1, 0, 1, 2, 3, 5)]
_s19 += [_l7('r', n, NS=ns, BUF=b) for ns in range(8) for n, b in ((-1, 2), (0, 2), (1, 2), (2, 2), (3, 0), (5, 1), (6, 2), (5, 2), (7, 2), (16, 12), (16, 20))]
_s19 += [_l7('R', n, NS=ns, BUF=b) for ns in (0, 1, 2, 3, 9) for n, b in ((-1, 2), (0, 0), (0, 2), (1, 2), (2, 2), (2, 1), (3, 2), (12, 12))]
_s19 += [_l7(f, n, BUF=b, CHAIN=c) for f in 'dD' for n, b in ((-1, 2), (0, 2), (1, 2), (2, 2), (3, 1), (5, 2), (14, 12), (14, 3), (15, 20)) for c in (0, 2)]
_s19 += [_l7(f, n, LEN2=m, CHAIN=c) for f in 'cC' for n in (-1, 0, 1, 2, 3, 14) for m in (-1, 0, 1, 2, 3) for c in (0, 1) if n > 1 or m == 2]
H('C19', 'l7', 'h_l7.c', ['diag_general.c', 'diag_l7_d2.c', 'diag_l7_kwp71.c'], defs={}, env=(), unwind=26, shapes=_s19, bounds='replies of 0..16 bytes in chains of up to 3, buffers of 0..20 bytes, every content, address, error code')

# ---- configuration items -------------------------------------------------------------
def _cf(k, ops, oom=0, oom0=0, dig=1):
    o = []
    for x in ops.split(): o += [_op(x[0]), x[1:] or '0']
    return dict(KIND=_op(k), OPS=','.join(o), OOM=oom, OOM0=oom0, DIG=dig)
_s21 = [_cf('s', o) for o in ('s0 g', 's5 g s3 r g', 'o0 g', 'o2 o1 g', 'o99 g', 's10 o0 o99', 'r s1 r', 'i u b g', 'f2 o0 g', 'g g s2')]
_s21 += [_cf('s', o, m) for o in ('s4 g', 'o1 g r', 's2 s3 s1', 'r g') for m in (1, 2, 3)] + [_cf(k, 'r', 0, m) for k in 'st' for m in (1, 2)]
_s21 += [_cf('t', o) for o in ('f2 g r g', 'f1 f2 o1 g', 'f2 f0 o0 o99 g', 'f0 r g', 'f2 o0 f1 g r', 's4 f2 o1 r g')] + [_cf('t', o, m) for o in ('f2 o1 g', 'f1 f2 r') for m in (1, 2, 4)]
_s21 += [_cf('i', o, 0, 0, d) for o in ('i g', 'i r g', 's3 u b i g') for d in (1, 3, 7, 10, 0x81, 0x87, 0x8A)] + [_cf('i', 'o99 i'), _cf('i', 'i g', 1), _cf('i', 'o1 o99')]
_s21 += [_cf('u', o) for o in ('u g', 'u r g', 's3 i b u g')] + [_cf('u', 'u g', 1)] + [_cf('b', o) for o in ('b b', 'b r', 's3 i u b')]
_s21t = [_cf('s', f'{a} {b} {c} g', m) for a in ('s3', 'o2', 'r', 'o99') for b in ('s1', 'o0', 'r') for c in ('s2', 'g', 'r') for m in range(8)] + [_cf('i', 'i g r g', 0, 0, d + s) for d in range(1, 11) for s in (0, 0x80)]
H('C21', 'cfg', 'h_cfg.c', ['diag_general.c', 'diag_cfg.c'], defs={}, env=('vp_fmt.c',), rename=('snprintf', 'strlen', 'strcpy'), unwind=26, shapes=_s21, shapes_t=_s21t,
  bounds='items of every kind, histories of up to 5 operations, texts of up to 10 characters, all option numbers and values, failing allocations')

# ---- command line --------------------------------------------------------------------
def _hx(pre, n): return dict(PRE='"%s"' % pre, LEN=n)
_s24 = [_hx('', n) for n in (0, 1, 2, 3)] + [_hx(p + d, n) for p in ('', '-') for d in '17' for n in (2, 5)] + [_hx('21474', 5), _hx('-21474', 5), _hx('99', 4)]
_s24 += [_hx(p, n) for p in ('$', '-$', '0x', '0X', '-0x') for n in (0, 1, 2, 5, 8, 9)] + [_hx(p + d, n) for p in ('0', '-0') for d in '178' for n in (0, 2, 5, 9)] + [_hx('01', 11)]
H('C24', 'htoi', 'h_htoi.c', ['diag_general.c', 'scantool_cli.c'], defs={}, env=(), unwind=20, shapes=_s24, shapes_t=[_hx(p + d, n) for p in ('', '-') for d in '123456789' for n in range(1, 10)],
  bounds='every text of up to 4 characters, and numerals of up to 9 digits after every prefix')
def _cl(std='', file='', rets=(0, 0, 0, 0, 0, 0), nofile=0, cust=0, **k):
    q = lambda s: ''.join('"%s",' % x for x in s.split('|')) if s else ''
    return dict(STDL=q(std), FILEL=q(file), RETS=','.join(map(str, rets)), NOFILE=nofile, CUSTOM=cust, **k)
_c24 = [_cl(s) for s in ('abc ?? ?', 'ab~~?~??? ', '  ab', 'AB ?', 'aB', 'abcd', 'a', 'sub ab ?', 'sub y', 'SUB any ? ?', 'sub|ab ?|up|ab ??', 'sub|up|Z', 'sub|exit|ab', 'sub quit|ab', 'sub up|ab', 'up|ab', 'quit|ab',
        '|~ ~|ab', '#ab|@ab|ab', 'nope|ab', 'sub nope|ab', 'sub|nope|ab|up|ab', 'ab|sub ab ?|z ?', 'sub')]
_c24 += [_cl('ab ?|abc', '', r) for r in ((0, 1, 0, 0, 0, 0), (0, 2, 0, 0, 0, 0), (0, 3, 0, 0, 0, 0), (0, 4, 0, 0, 0, 0))] + [_cl('sub|ab ?|ab|up|ab', '', (0, 0, r, 0, 0, 0)) for r in (1, 2, 3, 4)] + [_cl('sub ab ?|ab', '', (0, 0, r, 0, 0, 0)) for r in (1, 2, 3, 4)]
_c24 += [_cl('ab', nofile=1)] + [_cl('sub x? ?', cust=1), _cl('sub any|sub ab', cust=1), _cl('sub|x??|up|ab', cust=1)] + [_cl(x) for x in ('x', 'x??', 'c?? ?', 'ac~??', 'sub x?|ab')]
_c24f = [_cl('ab', f) for f in ('ab ?|sub ab|abc', 'nope|ab', 'sub|nope|ab', 'exit|ab', 'sub|exit', 'sub|ab|up|ab', '#x|ab', 'sub nope|ab')]
H('C24', 'cli', 'h_cli.c', ['libcli.c'], defs={}, env=('vp_fmt.c',), rename=('snprintf', 'fgets', 'feof', 'clearerr', 'fopen', 'fclose', 'fflush', 'strcspn', 'strtok', 'strcasecmp'), unwind=90, shapes=_c24, bounds='sessions of up to 4 lines of up to 40 characters on the console and in a command file; words and blanks symbolic')
H('C24', 'file', 'h_cli.c', ['libcli.c'], defs={}, env=('vp_fmt.c',), rename=('snprintf', 'fgets', 'feof', 'clearerr', 'fopen', 'fclose', 'fflush', 'strcspn', 'strtok', 'strcasecmp'), unwind=184, repo_defs={'libcli.c': ['malloc=vp_climalloc']}, shapes=_c24f, bounds='as above, lines read from a command file')
H('C24', 'many', 'h_climany.c', ['libcli.c'], defs={}, env=('vp_fmt.c',), rename=('snprintf', 'strtok', 'strcasecmp'), unwind=320, shapes=[dict(N=n, SUB=u) for n in (2, 9, 297, 298, 299, 300, 301, 310) for u in (0, 1)], bounds='command lines of up to 310 words')

# ---- car simulator -------------------------------------------------------------------
def _sm(db, req, **k):
    r = []
    for x in req.split(';'):
        b = x.split()
        r += [str(len(b))] + [('-1' if y == '?' else '0x' + y) for y in b]
    o = dict(BUF=10, OOM=0, NONL=0, NOFILE=0, ABANDON=0, INIT=0, TWICE=0, SPLIT=0, PROTO='DIAG_L1_ISO9141')
    o.update(k)
    return dict(DBL=''.join('"%s",' % l for l in db.split('|')), REQS=','.join(r), **o)
_D1 = 'RQ 0x10 XXXX 0x20|RP 0x48 req2 req1+ cks1|RP 0xFF|RQ 0x10 XXXX|RP req2+ req3 cks1|RQ XXXX 0x01|RP 0x7F req1 0x11|# end'
_s26 = [_sm(_D1, r) for r in ('10 ? 20', '10 ? 20 ? ?', '10 ?', '10 ? 21', '10 ? A0', '90 01', '00 01', '11 01 ?', '11 02', '11', '10', '? 01', '', '? 02', '10 ? 20;10 ?', '10 ?;? 01;10 ? 20')]
_s26 += [_sm(_D1, r, SPLIT=m) for r, m in (('10 ? ?', 1), ('10 ? ?', 0), ('? ? 20', 9), ('? ? 20', 1), ('? ? ?', 9), ('? ?', 32), ('? ?', 8), ('? ?', 0), ('11 ?', 32), ('11 ?', 0))]
_D2 = 'RQ 0x01 0xA5|RP swt1 0 sin1 cks1|RQ  7e 0XfF|RP ab 0xCd 5 00|RP req2 req0 req3 req req1++ req257 req99 req1|RQ 0x02 0x03|RQ 0x02|RP|RP |RP 0x01|# c|RP 0x02|RQ|RP 0x33'
_s26 += [_sm(_D2, r) for r in ('01 A5', '7E FF', '7E FF ? ?', '7E FE', '02 03 ?', '02', '02 04', '03', '?')] + [_sm('RQ 0x01|RP 0x11 zz 0x12|RP cks1', '01'), _sm('RQ 0x01|RP 0x11', '01', NONL=1), _sm('RQ|RP', '01', NONL=1), _sm('RQ', '?', NONL=1), _sm('', '?')]
_s26 += [_sm('RQ XXXX|RP 1 2 3 4 5 req1', '?', BUF=b) for b in (1, 3, 5, 6)] + [_sm(_D1, '10 ? 20', OOM=m, SPLIT=1) for m in (1, 2, 4, 8, 16, 32, 64, 5)] + [_sm(_D1, '10 ? 20;? 01', ABANDON=1)]
_s26 += [_sm('CFG %s|RQ 0x33|RP 0x55 08|RP 1' % c, '33 ?', TWICE=1) for c in ('DATAONLY', 'NOL2CKSUM', 'FRAMED', 'FULLINIT', 'P_9141', 'P_14230', 'P_J1850P', 'P_J1850V', 'P_CAN', 'P_RAW', 'nothing', '')]
_s26 += [_sm('CFG P_14230|RQ 0x33|RP 0x55', '33 ?', PROTO='DIAG_L1_ISO14230'), _sm('#|CFG FRAMED|CFG FULLINIT|RQ 0x33|RP 0x55|CFG DATAONLY', '33 ?', INIT=1), _sm('RQ 0', '1', NOFILE=1)]
_s26 += [_sm('RQ 0x33|RP 0x55|RP 0x08|RP 0x08|RQ 0x00|RP 0xC1|RQ 0x01|RP req2', '01 ?', INIT=i) for i in (1, 2, 3)]
H('C26', 'sim', 'h_sim.c', ['diag_general.c', 'diag_cfg.c', 'diag_l0_sim.c'], defs={}, env=(), rename=('fopen', 'fclose', 'fgets', 'rewind', 'strtoul', 'sscanf', 'strtok', 'memcmp'), repo_defs={'diag_l0_sim.c': ['__NO_CTYPE', 'isspace=vp_isspace']}, fs=1400,
  unwind=60, shapes=_s26, bounds='databases of up to 12 lines using every element kind, requests of up to 5 bytes with symbolic contents, up to 3 requests per session, one failing allocation; texts of the database lines enumerated')
H('C26', 'long', 'h_simlong.c', ['diag_general.c', 'diag_cfg.c', 'diag_l0_sim.c'], defs={}, env=(), rename=('fopen', 'fclose', 'fgets', 'rewind', 'strtoul', 'sscanf', 'strtok', 'memcmp'), repo_defs={'diag_l0_sim.c': ['__NO_CTYPE', 'isspace=vp_isspace']}, fs=1400,
  unwind=330, shapes=[dict(DBL='"RQ 0x01","RP 9",', REQS='0', BUF=b, N=n, LAST='"%s"' % t, PROTO='DIAG_L1_ISO9141', SPLIT=0, NONL=0, NOFILE=0, OOM=0) for n, t in ((2, 'req1'), (100, 'cks1'), (259, '9'), (260, 'cks1'), (260, '9'), (261, '9'), (300, '9')) for b in (320,)] + [dict(DBL='"RQ 0x01","RP 9",', REQS='0', BUF=b, N=260, LAST='"9"', PROTO='DIAG_L1_ISO9141', SPLIT=0, NONL=0, NOFILE=0, OOM=0) for b in (10, 255)], object_bits=13, bounds='response lines of up to 300 elements')

# ---- serial port ---------------------------------------------------------------------
_tty = lambda op, **k: dict(OP="'%s'" % op, OPTIONAL=k.pop('OPTIONAL', -2), **k)
_s29 = [_tty('o', FAIL=f, OPTIONAL=3) for f in range(-1, 9)] + [_tty('o', OOM=m) for m in (1, 2)] + [_tty('o', NOSERIAL=1)]
_s29 += [_tty('s', SPEED=s) for s in (0, 1, 5, 360, 9600, 10400, 115200, 3000000)] + [_tty('s', FAIL=f) for f in range(5)] + [_tty('s', FAIL=2, SPEED=2000000), _tty('s', FAIL=2, NOSERIAL=1)]
_s29 += [_tty('c', FAIL=f) for f in (-1, 0, 1)] + [_tty('b', FAIL=f, OPTIONAL=0) for f in (-1, 0, 1, 2)] + [_tty('f', STEPS='"%s"' % s, DT=dt, MS=ms) for s, dt, ms in (('11', 1, 50), ('11', 0, 25), ('11', 9, 50), ('1i1', 1, 50), ('1I1', 0, 30), ('i11', 1, 50), ('1s1', 1, 100), ('e', 0, 50), ('1e', 0, 50), ('1', 0, 50), ('11', 0, 24), ('11', 0, 0))]
_s29 += [_tty('w', N=n, SPEED=v, STEPS='"%s"' % s) for n, v, s in ((1, 10400, ''), (5, 10400, '5'), (5, 10400, '23'), (5, 10400, '2i1ii2'), (5, 360, 'i5'), (5, 5, '11111'), (5, 115200, '2i'), (5, 10400, 'iii'), (5, 10400, '2e'), (5, 9600, 'ie'), (4, 10400, '2i2'), (6, 3000000, '0033'), (30, 300, ''))]
_s29 += [_tty('r', N=n, STEPS='"%s"' % s) for n, s in ((1, '1'), (1, 't'), (5, '5'), (5, '23'), (5, '2i3'), (5, 'ii1i4'), (5, '2t'), (5, 'it'), (5, '2e'), (5, 'e'), (5, 's5'), (5, '2ss3'), (5, '11111'), (8, '3I5'), (5, 'I5'), (5, '0'), (5, '20'), (5, 'E'), (5, '2E'))]
_s29 += [_tty('r', N=n, STEPS='"%s"' % s, DT=d, TMO=t) for n, s, d, t in ((1, '1', 0, 1), (1, '1', 99, 1), (5, '2i3', 0, 20), (5, '2i3', 100, 20), (5, '11111', 100, 5), (5, '11111', 90, 55), (5, 'ss11111', 90, 9999), (9, '1i1I1ss1s1', 30, 4000))]
H('C29', 'tty', 'h_tty.c', ['diag_tty_unix.c', 'diag_general.c'], defs={}, env=(), unwind=40, shapes=_s29, rename=('open', 'close', 'fcntl', 'ioctl', 'cfsetispeed', 'cfsetospeed', 'select', 'read', 'write', '__errno_location'),
  bounds='every system call of opening, setting up, breaking and controlling the port made to fail in turn; writes and reads of up to 30 bytes under histories of up to 6 partial transfers, interruptions, expiries and errors; contents, settings, previous settings, times symbolic')

# ---- Multiplex Engineering, BR-1 -----------------------------------------------------
def _ad(dev, proto, ops, rx='', **k):
    """ops: 's5 r20 i f'; rx: 'ctl:n[:upto[:flag]]'"""
    o = ','.join("{'%s',%s}" % (x[0], x[1:] or '0') for x in ops.split()) or "{'r',1}"
    r = ''
    for x in rx.split():
        p = x.split(':') + ['-1', '0'][len(x.split(':')) - 2:]
        r += '{0x%s,%s,%s,%s},' % tuple(p)
    return dict(DEV=dev, PROTO='DIAG_L1_' + proto, OPS=o, RX=r, **k)
_B0, _B1 = 'ff:0 ', 'ff:0 01:1 '
_s28 = [_ad(1, 'J1850_VPW', 's%d r20' % n, _B1 + '04:4') for n in (0, 1, 3, 13, 14, 15, 16, 40)] + [_ad(1, 'ISO9141', 's%d' % n, _B0) for n in (0, 1, 14, 15, 16, 40)]
_s28 += [_ad(1, 'J1850_PWM', 's3 r20', _B1 + x) for x in ('01:1', '0f:15', '0c:12', '80:0', '83:3', '40:0 05:5', '42:2 40:0 01:1', '00:0', '05:5:3', '05:5:0', '', 'c1:1')]
_s28 += [_ad(1, 'J1850_VPW', o, _B1 + '08:8 03:3 80:0') for o in ('s3 r3 r3 r3 r20 r20', 's3 r8 r20 s2 r20', 's3 r20 r20 r20 s1', 's3 r7 r1 r3', 'r20 r20')] + [_ad(1, 'J1850_VPW', 's3 r20 r20', _B1 + '08:8 40:0 03:3')]
_s28 += [_ad(1, 'J1850_VPW', '', x) for x in ('', 'fe:0', 'ff:0', 'ff:0 02:2', 'ff:0 03:3', 'ff:0 80:0', 'ff:0:0', 'ff:0 02:2:2', 'ff:0 00:0')] + [_ad(1, 'J1850_PWM', 's3 r20', _B1 + '04:4', FAILW=w) for w in (0, 1, 2, 3, 4)]
_s28 += [_ad(1, 'ISO9141', o, _B0 + x) for o in ('i r20', 'i r1 r1 s4', 'i r1 r5') for x in ('01:1', '02:2')] + [_ad(1, 'ISO9141', 'i', _B0 + x) for x in ('', '80:0', '02:2:2', '0f:15')] + [_ad(1, 'ISO14230', 'f s5', _B0), _ad(1, 'ISO9141', 's3 r5 r20 r9', _B0 + '12:9')]
_s28 += [_ad(1, 'J1850_VPW', 's3 r3', _B1 + '08:8', TWICE=1), _ad(1, 'ISO9141', 'i r1', _B0 + '02:2', TWICE=1)] + [_ad(d, 'ISO9141', '', _B0, OPENERR=e) for d in (0, 1) for e in (1, 2)] + [_ad(0, 'ISO9141', '', '', OPENERR=3)]
_s28 += [_ad(0, p, 's%d' % n) for p in ('ISO9141', 'J1850_VPW', 'J1850_PWM') for n in (0, 1, 5, 10, 11, 12, 255, 256)] + [_ad(0, 'ISO14230', o) for o in ('s5', 'f s5 s3', 's12')]
_s28 += [_ad(0, p, 's3 r20', '%s:%d' % (t, n)) for p, t in (('ISO9141', '81'), ('J1850_VPW', '82'), ('J1850_PWM', '84'), ('ISO14230', '01')) for n in (2, 3, 6, 10, 11)] + [_ad(0, 'ISO9141', 's3 r20', '81:%d:-1:2' % n) for n in (1, 4, 11)]
_s28 += [_ad(0, 'J1850_VPW', o, '82:3') for o in ('s3 r2 r20', 's3 r5 r5', 's3 r1 r20')] + [_ad(0, 'ISO9141', 's3 r20', '80:%d' % n) for n in (1, 5, 7, 12, 200)] + [_ad(0, 'ISO9141', 's3 r20 r20', '81:3:-1:1')]
_s28 += [_ad(0, 'J1850_PWM', 's3 r20 r20', '84:6:%d' % u) for u in (0, 1, 13)] + [_ad(0, 'J1850_VPW', 's3 r20', '88:5')]
_s28 += [_ad(0, 'ISO14230', 'i r20', x) for x in ('01:3 01:2', '80:3', '01:3 80:2', '01:3:5', '01:3 01:2:3', '')] + [_ad(0, 'ISO14230', 'i r1 r1 s5 r20', '01:3 01:2 01:4')] + [_ad(0, 'ISO9141', 'i', x) for x in ('', '81:3')]
_s28 += [_ad(0, 'ISO14230', 'i r1', '01:3 01:2', TWICE=1), _ad(0, 'J1850_VPW', 's3 r3', '82:5', TWICE=1)] + [_ad(0, 'ISO9141', 's3', '', FAILW=0), _ad(0, 'ISO14230', 'f s3', ADDR=0x38)]
for _s in _s28:
    if any(x in _s['OPS'] for x in (',40}', ',255}', ',256}')): _s['_unwind'] = 300
H('C28', 'adapter', 'h_adapt.c', ['diag_l0_br.c', 'diag_l0_me.c', 'diag_general.c'], defs={}, env=(), unwind=48, shapes=_s28,
  bounds='sessions of up to 6 requests, receptions and wake-ups, requests of up to 256 bytes, responses of up to 3 frames whole or cut, all contents; every failing write')
