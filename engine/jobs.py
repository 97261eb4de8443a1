"""Jobs per property: harness, bounds (compile-time defines) and budgets."""
PROPS = {}
FULL = dict(RLO='(1.0/256)', RHI='256.0')


def J(name, h, v='real', budget=150, Dq=None, Dt=None, **kw):
    D = {k: w for k, w in kw.items() if k.isupper() or k[-1].isdigit() and k[0].isupper()}
    rest = {k: w for k, w in kw.items() if k not in D}
    d = dict(name=name, h=h, v=v, D=D, budget=budget if isinstance(budget, dict) else dict(quick=budget, thorough=max(600, budget)), **rest)
    if Dq:
        d['Dq'] = Dq
    if Dt:
        d['Dt'] = Dt
    return d


def P(pid, jobs, **kw):
    PROPS[pid] = dict(jobs=jobs, **kw)


S, T = 'small', 'tiny'
LIN, ZOH, FAST, MED, BEST = 4, 3, 2, 1, 0
R4 = '1.0, 0.5, 1.3, 0.7'
R2 = '1.0, 0.6'
MR = '2.0,0.5,3.0,0.25,0.999,1.001,10.0,0.1,0.91875,1.0884353741496597'
XR = '(1.0/256),256.0'          # the ends of the ratio range
AX = dict(K1=2, PRE=1, SIZES='700,2000', OSIZES='2', NLO=380, NHI=420, MLO=1, MHI=3, EOIMAX=1, RATIOS=XR, Dt=dict(NLO=300, NHI=700))
SX = dict(RATIOS='1.0/256', NMIN=1300, NMAX=1300, K1=1, KMAX=60, BN=700, SIZES='7,600', OSIZES='0,2', CTOL='5e-5', TOT=40, BM=40)
SY = dict(RATIOS='256.0', NMIN=6, NMAX=6, K1=1, KMAX=60, BN=3, SIZES='0,1,5', OSIZES='0,2', CTOL='5e-5', TOT=1700, BM=600)

# ------------------------------------------------------------------ C05 / C06
Z = lambda n, **k: J('zoh_' + n, 'zoh.c', **{**FULL, **k})
P('C05', [
    Z('k1', CH=1, K=1, NB=6, MB=4, reach=['two outputs'], Dt=dict(NB=12, MB=8)),
    Z('k2', CH=1, K=2, NB=4, MB=2, reach=['two outputs'], Dt=dict(NB=6, MB=4)),
    Z('k3', CH=1, K=3, NB=2, MB=2, RLO='0.25', RHI='256.0', reach=['two outputs'], Dt=dict(NB=3, MB=2, RLO='(1.0/256)')),
    Z('k2s', CH=2, K=2, NB=4, MB=2, reach=['two outputs']),
    Z('k3s', CH=3, K=3, NB=1, MB=2, RLO='0.25', RHI='4.0'),
    Z('k1c6', CH=6, K=1, NB=5, MB=3),
    Z('mag', CH=2, K=2, NB=3, MB=2, MAG='64.0', reach=['two outputs']),
    J('zoh_ex', 'zoh.c', CH=1, K=3, NB=5, MB=3, EXACT='0.25,0.5,1.0,2.0,4.0', reach=['two outputs']), J('zoh_ex3', 'zoh.c', CH=3, K=2, NB=9, MB=3, EXACT='0.125,0.25,0.5,8.0', reach=['two outputs']),
])
L = lambda n, **k: J('lin_' + n, 'lin.c', **{**FULL, **k})
P('C06', [
    L('k1', CH=1, K=1, NB=6, MB=4, reach=['two outputs'], Dt=dict(NB=12, MB=8)),
    L('k2', CH=1, K=2, NB=3, MB=2, reach=['two outputs'], Dt=dict(NB=6, MB=4)),
    L('k3', CH=1, K=3, NB=2, MB=1, RLO='0.25', RHI='256.0', reach=['two outputs'], Dt=dict(NB=3, MB=2, RLO='(1.0/256)')),
    L('k2s', CH=2, K=2, NB=3, MB=2, reach=['two outputs']),
    L('k3s', CH=3, K=3, NB=1, MB=2, RLO='0.25', RHI='4.0'),
    L('k1c6', CH=6, K=1, NB=5, MB=3), L('mag', CH=2, K=1, NB=4, MB=3, MAG='64.0', reach=['two outputs']),
    J('lin_ex', 'lin.c', CH=1, K=3, NB=5, MB=3, MAG='64.0', EXACT='0.25,1.0,0.6,1.7', reach=['two outputs']), J('lin_ex3', 'lin.c', CH=3, K=2, NB=6, MB=3, EXACT='0.3,0.5,1.1,8.0', reach=['two outputs']),
])

# ------------------------------------------------------------------ C04 streaming
ST = lambda n, v='real', **k: J(n, 'stream.c', v, **{**dict(CH=1, reach=['output']), **k})
SLZ = dict(RATIOS=R4, NMIN=1, NMAX=6, TOT=24, K1=2, KMAX=40, BN=3, BM=4, SIZES='0,1,2,4', OSIZES='0,1,2,5')
SLR = dict(RLO=0.25, RHI=4.0, TIEFREE=14, NMIN=1, NMAX=2, TOT=24, K1=1, KMAX=40, BN=3, BM=4, SIZES='0,1', OSIZES='0,1,2', CTOL='1e-6')
WRAP = dict(RATIOS='1.0,0.6,1.7', NMIN=70, NMAX=70, TOT=160, K1=2, KMAX=60, BN=19, BM=26, SIZES='0,1,27,31,33,60', OSIZES='0,9,60', CTOL='5e-5')
P('C04', [
    ST('lin', CT=LIN, CTOL='0.0', **SLZ, Dt=dict(K1=3)),
    ST('zoh', CT=ZOH, **{**SLZ, 'CH': 2, 'CTOL': '0.0'}, Dt=dict(K1=3)),
    ST('linr', CT=LIN, **SLR, Dt=dict(NMAX=4)),
    ST('zohr', CT=ZOH, **{**SLR, 'CH': 2}, Dt=dict(NMAX=4)),
    ST('fast', S, CT=FAST, RATIOS='1.0, 0.5, 1.3', NMIN=12, NMAX=14, TOT=60, K1=2, KMAX=60, BN=5, BM=6, SIZES='0,1,7', OSIZES='0,1,9', CTOL='5e-5'),
    ST('wrap1', T, CT=FAST, **WRAP, Dt=dict(NMIN=66, NMAX=72)),
    ST('wrap2', T, CT=MED, **{**WRAP, 'CH': 2, 'SIZES': '0,28,41', 'OSIZES': '0,9,60'}),
    ST('wrap3', T, CT=FAST, **{**WRAP, 'CH': 3, 'SIZES': '1,29,37', 'OSIZES': '9,60', 'RATIOS': '1.0, 0.6'}),
    ST('wrap4', T, CT=FAST, **{**WRAP, 'CH': 4, 'SIZES': '1,29,37', 'OSIZES': '9,60', 'RATIOS': '1.0, 0.6'}),
    ST('wrap6', T, CT=FAST, **{**WRAP, 'CH': 6, 'SIZES': '1,29,37', 'OSIZES': '9,60', 'RATIOS': '1.0, 0.6'}),
    ST('wrap7', T, CT=FAST, **{**WRAP, 'CH': 7, 'SIZES': '29,37', 'OSIZES': '9,60', 'RATIOS': '1.0, 0.6'}),
    ST('wrap128', T, CT=FAST, **{**WRAP, 'CH': 128, 'SIZES': '29,37', 'OSIZES': '60', 'RATIOS': '0.6'}),
    *[ST('bit%d' % c, T, CT=MED if c == 5 else FAST, **{**WRAP, 'CH': c, 'NMIN': 70, 'NMAX': 71, 'TOT': 240, 'K1': 1, 'KMAX': 400, 'BN': 1 + c % 2, 'BM': 1 if c < 4 else 2,
        'SIZES': '1,3', 'OSIZES': '1,2', 'RATIOS': '1.0, 0.6, 1.7' if c not in (1, 5) else '0.5, 2.0, 1.1'}) for c in (1, 2, 3, 4, 5, 6, 7)],
    ST('rat', S, CT=FAST, CH=2, RATIOS=MR, NMIN=60, NMAX=60, TOT=640, K1=2, KMAX=120, BN=13, BM=90, SIZES='1,41', OSIZES='0,9', CTOL='5e-5'),
    ST('real', CT=FAST, RATIOS='1.0, 0.75', NMIN=44, NMAX=44, TOT=60, K1=2, KMAX=60, BN=15, BM=16, SIZES='1,30', OSIZES='1,20', CTOL='5e-5'),
    ST('lo1', S, CT=FAST, **SX), ST('lo2', S, CT=FAST, **{**SX, 'CH': 2}), ST('hi1', S, CT=FAST, **SY), ST('hi3', S, CT=FAST, **{**SY, 'CH': 3}),
])

# ------------------------------------------------------------------ C01 accounting
W1 = dict(SIZES='7,31', OSIZES='3,60', NLO=20, NHI=36, MLO=3, MHI=3, EOIMAX=1)
HG = dict(K1=2, SPAN=3, OSZ=3, reach=['huge input'])
P('C01', [
    J('lin', 'acct.c', budget=230, CT=LIN, CH=1, K1=2, NLO=1, NHI=2, MLO=0, MHI=2, EOIMAX=0, **FULL, Dt=dict(NHI=3, MHI=3, EOIMAX=1)),
    J('zoh', 'acct.c', budget=230, CT=ZOH, CH=1, K1=2, NLO=1, NHI=2, MLO=0, MHI=2, EOIMAX=0, **FULL, Dt=dict(NHI=3, MHI=3, EOIMAX=1)),
    J('lin_n', 'acct.c', CT=LIN, CH=2, K1=1, NLO=-1, NHI=3, MLO=-1, MHI=3, EOIMAX=1, NULLS=1, **FULL),
    J('zoh_n', 'acct.c', CT=ZOH, CH=2, K1=1, NLO=-1, NHI=3, MLO=-1, MHI=3, EOIMAX=1, NULLS=1, **FULL),
    J('lin3', 'acct.c', CT=LIN, CH=3, K1=2, NLO=2, NHI=2, MLO=1, MHI=1, EOIMAX=0, SETR=1, **FULL),
    J('zoh3', 'acct.c', CT=ZOH, CH=3, K1=2, NLO=2, NHI=2, MLO=1, MHI=1, EOIMAX=0, SETR=1, **FULL),
    J('fast', 'acct.c', S, CT=FAST, CH=1, K1=2, PRE=1, SIZES='0,9', OSIZES='2', NLO=-1, NHI=8, MLO=-1, MHI=3, EOIMAX=1, NULLS=1, RATIOS=R2),
    J('fast2', 'acct.c', S, CT=FAST, CH=2, K1=2, PRE=1, SIZES='8', OSIZES='2,3', NLO=6, NHI=9, MLO=1, MHI=3, EOIMAX=1, RATIOS='1.7, 0.6'),
    J('wrap', 'acct.c', T, CT=FAST, CH=1, K1=3, PRE=2, RATIOS=R2, **W1),
    J('wrap3', 'acct.c', T, CT=FAST, CH=3, K1=3, PRE=2, RATIOS=R2, **{**W1, 'NLO': 26, 'NHI': 36}),
    J('x1', 'acct.c', S, CT=FAST, CH=1, **AX), J('x3', 'acct.c', S, CT=FAST, CH=3, **AX), J('x0', 'acct.c', S, CT=FAST, CH=2, **{**AX, 'NLO': 0, 'NHI': 20}),
    J('huge_f', 'huge.c', S, CT=FAST, CH=1, RATIOS='1.0, 0.6', **HG), J('huge_f2', 'huge.c', S, CT=FAST, CH=2, RATIOS='1.0, 0.6', **HG), J('huge_f3', 'huge.c', S, CT=MED, CH=3, RATIOS='1.7', **HG),
    J('huge_l', 'huge.c', CT=LIN, CH=2, RATIOS='1.0, 0.6', **HG), J('huge_z', 'huge.c', CT=ZOH, CH=1, RATIOS='1.0, 0.6', **HG),
    ST('s_lin', CT=LIN, CTOL='0.0', **{**SLZ, 'NMIN': 4, 'SIZES': '0,1,3', 'OSIZES': '0,1,5'}),
    ST('s_zoh', CT=ZOH, CTOL='0.0', **{**SLZ, 'NMIN': 4, 'SIZES': '0,1,3', 'OSIZES': '0,1,5'}),
    ST('s_wrap', T, CT=FAST, **{**WRAP, 'SIZES': '1,31', 'OSIZES': '9,60'}),
])
# ------------------------------------------------------------------ C02 memory / UB
P('C02', [
    J('lin', 'mem.c', CT=LIN, CH=1, K1=2, NLO=0, NHI=2, MLO=0, MHI=2, EOIMAX=0, FIXR=1, **FULL, Dt=dict(NHI=4, MHI=3)),
    J('lin_v', 'mem.c', CT=LIN, CH=2, K1=2, NLO=1, NHI=2, MLO=1, MHI=1, EOIMAX=0, RLO='0.25', RHI='4.0', Dt=dict(MHI=2)),
    J('zoh', 'mem.c', CT=ZOH, CH=1, K1=2, NLO=0, NHI=2, MLO=0, MHI=2, EOIMAX=0, FIXR=1, **FULL, Dt=dict(NHI=4, MHI=3)),
    J('zoh_v', 'mem.c', CT=ZOH, CH=2, K1=2, NLO=1, NHI=2, MLO=1, MHI=1, EOIMAX=0, RLO='0.25', RHI='4.0', Dt=dict(MHI=2)),
    J('fast', 'mem.c', S, CT=FAST, CH=1, K1=3, NLO=0, NHI=8, MLO=0, MHI=3, PRE=2, SIZES='0,7', OSIZES='3', EOIMAX=1, PIN=1, RATIOS='0.6, 1.7'),
    J('fastr', 'mem.c', S, CT=FAST, CH=1, K1=1, NLO=8, NHI=10, MLO=2, MHI=2, EOIMAX=1, PIN=1, OPQ=1, RLO=0.5, RHI=2.0),
    J('fastr2', 'mem.c', S, CT=FAST, CH=2, K1=1, NLO=9, NHI=9, MLO=2, MHI=2, EOIMAX=0, PIN=1, OPQ=1, RLO=0.5, RHI=2.0),
    J('wrap1', 'mem.c', T, CT=FAST, CH=1, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **W1),
    J('wrap2', 'mem.c', T, CT=MED, CH=2, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **{**W1, 'NLO': 24, 'NHI': 40}),
    J('wrap3', 'mem.c', T, CT=FAST, CH=3, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **{**W1, 'NLO': 24, 'NHI': 36}),
    J('wrap4', 'mem.c', T, CT=FAST, CH=4, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **{**W1, 'NLO': 24, 'NHI': 36}),
    J('wrap6', 'mem.c', T, CT=FAST, CH=6, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **{**W1, 'NLO': 24, 'NHI': 36}),
    J('wrap7', 'mem.c', T, CT=FAST, CH=7, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **{**W1, 'NLO': 24, 'NHI': 36}),
    J('wrap128', 'mem.c', T, CT=MED, CH=128, K1=3, PRE=2, PIN=1, OPQ=1, RATIOS='0.6, 1.7', **{**W1, 'NLO': 30, 'NHI': 32}),
    *[J('dn%d' % c, 'mem.c', S, CT=MED if c == 5 else FAST, CH=c, K1=3, PRE=2, SIZES='330', OSIZES='6', NLO=400, NHI=400, MLO=6, MHI=6, EOIMAX=0, PIN=1, OPQ=1, SETR=1, RATIOS='1.0,0.15,0.01') for c in (1, 2, 3, 4, 5, 6)],
    J('cb', 'cb.c', CT=LIN, CH=2, NIN=6, TOT=30, NBK=2, K1=1, KMAX=20, OBLK=4, SIZES='0,1,2', OSIZES='0,1,3', RATIOS=R2, CTOL='1e-6'),
    J('x1', 'mem.c', S, CT=FAST, CH=1, PIN=1, OPQ=1, **{**AX, 'NHI': 400}), J('x4', 'mem.c', S, CT=FAST, CH=4, PIN=1, OPQ=1, **{**AX, 'NHI': 390}), J('x6', 'mem.c', S, CT=FAST, CH=6, PIN=1, OPQ=1, **{**AX, 'NHI': 390}),
])
P('C03', [
    J('lin', 'reject.c', CT=LIN, CH=1, K1=2, SIZES='0,1,3', RATIOS='1.0, 0.7'),
    J('zoh', 'reject.c', CT=ZOH, CH=1, K1=2, SIZES='0,1,3', RATIOS='1.0, 0.7'),
    J('fast', 'reject.c', S, CT=FAST, CH=1, K1=2, SIZES='8,13', RATIOS=R2),
    J('fast3', 'reject.c', S, CT=FAST, CH=3, K1=2, SIZES='13', OSIZES='1,5', RATIOS='1.0'),
    J('a_lin', 'acct.c', CT=LIN, CH=2, K1=2, PRE=1, SIZES='1,2', OSIZES='1', NLO=-1, NHI=2, MLO=-1, MHI=2, EOIMAX=0, RLO='0.25', RHI='4.0'),
    J('a_zoh', 'acct.c', CT=ZOH, CH=2, K1=2, PRE=1, SIZES='1,2', OSIZES='1', NLO=-1, NHI=2, MLO=-1, MHI=2, EOIMAX=0, RLO='0.25', RHI='4.0'),
    J('a_fast', 'acct.c', S, CT=FAST, CH=2, K1=2, PRE=1, SIZES='0,9', OSIZES='2', NLO=-1, NHI=8, MLO=-1, MHI=3, EOIMAX=1, RATIOS='0.6'),
    J('a_fast6', 'acct.c', S, CT=FAST, CH=6, K1=2, NLO=7, NHI=8, MLO=1, MHI=3, EOIMAX=1, RATIOS=R2),
    J('a_wrap', 'acct.c', T, CT=FAST, CH=1, K1=3, PRE=2, RATIOS=R2, **{**W1, 'NLO': 28}),
    J('a_x1', 'acct.c', S, CT=FAST, CH=1, **{**AX, 'NHI': 390}), J('a_x4', 'acct.c', S, CT=FAST, CH=4, **{**AX, 'NHI': 385}), J('a_x6', 'acct.c', S, CT=FAST, CH=6, **{**AX, 'NHI': 385}),
])
CHJ = lambda n, v='real', **k: J(n, 'chan.c', v, **{**dict(CTOL='1e-6', reach=['output']), **k})
CLZ = dict(NIN=12, TOT=40, K1=2, SIZES='0,1,2,5', RATIOS=R4)
CSN = dict(NIN=40, TOT=80, K1=2, SIZES='0,1,9,14', RATIOS=R2)
P('C08', [
    CHJ('lin3', CT=LIN, CH=3, **CLZ), CHJ('zoh3', CT=ZOH, CH=3, **CLZ),
    CHJ('lin128', CT=LIN, CH=128, NIN=6, TOT=14, K1=2, SIZES='1,3', RATIOS=R2), CHJ('zoh33', CT=ZOH, CH=33, NIN=6, TOT=14, K1=2, SIZES='1,3', RATIOS=R2),
    CHJ('lin300', CT=LIN, CH=300, NIN=4, TOT=8, K1=2, SIZES='1,2', OSIZES='1', RATIOS='0.6'), CHJ('zoh260', CT=ZOH, CH=260, NIN=4, TOT=8, K1=2, SIZES='1,2', OSIZES='1', RATIOS='1.7'),
    CHJ('fast128', S, CT=FAST, CH=128, **{**CSN, 'SIZES': '14', 'K1': 1}), CHJ('fast33', S, CT=FAST, CH=33, **{**CSN, 'SIZES': '14', 'K1': 1}),
    CHJ('linr', CT=LIN, CH=2, NIN=8, TOT=14, K1=2, SIZES='1,2', OSIZES='0,1', FIXR=1, RLO='0.5', RHI='2.0'),
    CHJ('zohr', CT=ZOH, CH=2, NIN=8, TOT=14, K1=2, SIZES='1,2', OSIZES='0,1', FIXR=1, RLO='0.5', RHI='2.0'),
    CHJ('fast2', S, CT=FAST, CH=2, SETR=1, **CSN), CHJ('fast3', S, CT=FAST, CH=3, **CSN),
    CHJ('fast4', S, CT=FAST, CH=4, **{**CSN, 'RATIOS': '1.0, 0.6, 1.7', 'SIZES': '1,9,14'}), CHJ('fast6', S, CT=FAST, CH=6, **{**CSN, 'RATIOS': '1.0, 0.6, 1.7', 'SIZES': '1,9,14'}),
    CHJ('med5', S, CT=MED, CH=5, **{**CSN, 'SIZES': '1,14'}), CHJ('med7', S, CT=MED, CH=7, **{**CSN, 'SIZES': '1,14'}),
    CHJ('wrap2', T, CT=FAST, CH=2, NIN=140, TOT=240, K1=3, SIZES='17,31,44', OSIZES='60', RATIOS='1.0, 0.6, 1.7'),
    CHJ('wrap3', T, CT=FAST, CH=3, NIN=140, TOT=240, K1=3, SIZES='17,31', OSIZES='60', RATIOS=R2),
    CHJ('wrap4', T, CT=FAST, CH=4, NIN=140, TOT=240, K1=3, SIZES='17,31', OSIZES='60', RATIOS=R2),
    CHJ('wrap6', T, CT=FAST, CH=6, NIN=140, TOT=240, K1=3, SIZES='17,31', OSIZES='60', RATIOS=R2),
    *[CHJ('dn%d' % c, S, CT=MED if c == 5 else FAST, CH=c, NIN=700, TOT=180, K1=3, SIZES='230', OSIZES='6', RATIOS='1.0,0.15', SETR=1, CTOL='1e-4') for c in (2, 3, 4, 6)],
])
FL = lambda n, v='real', **k: J(n, 'flush.c', v, **{**dict(CH=1, reach=['end']), **k})
P('C09', [
    FL('lin', CT=LIN, NMIN=1, NMAX=2, K1=1, KMAX=30, BN=3, OBUF=10, SIZES='1', OSIZES='0,1', RLO=0.25, RHI=4.0, Dt=dict(NMAX=5, OBUF=24)),
    FL('zoh', CT=ZOH, NMIN=1, NMAX=2, K1=1, KMAX=30, BN=3, OBUF=10, SIZES='1', OSIZES='0,1', RLO=0.25, RHI=4.0, Dt=dict(NMAX=5, OBUF=24)),
    FL('lin2', CT=LIN, CH=2, NMIN=1, NMAX=5, K1=1, KMAX=30, BN=2, OBUF=30, SIZES='0,1,3', RATIOS='0.004, 0.3, 1.0, 3.7'),
    FL('zoh2', CT=ZOH, CH=2, NMIN=1, NMAX=5, K1=1, KMAX=30, BN=2, OBUF=30, SIZES='0,1,3', RATIOS='0.004, 0.3, 1.0, 3.7'),
    FL('fast', S, CT=FAST, NMIN=1, NMAX=14, K1=1, KMAX=30, BN=7, OBUF=30, SIZES='0,5', OSIZES='0,3', RATIOS='1.0, 0.6, 1.3'),
    FL('wrap', T, CT=FAST, NMIN=20, NMAX=68, NSTEP=4, K1=2, KMAX=30, BN=40, OBUF=130, SIZES='33,60', RATIOS='1.0,0.6,1.7'),
    FL('wrapm', T, CT=FAST, NMIN=26, NMAX=36, NSTEP=1, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33,60', RATIOS='1.0,0.6,1.7'),
    FL('wrap2', T, CT=FAST, CH=2, NMIN=26, NMAX=62, NSTEP=3, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33', OSIZES='5,60', RATIOS='1.0,0.6,1.7'),
    FL('wrap3', T, CT=MED, CH=3, NMIN=26, NMAX=62, NSTEP=4, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33', OSIZES='5,60', RATIOS='1.0,0.6,1.7'),
    FL('wrap4', T, CT=FAST, CH=4, NMIN=26, NMAX=62, NSTEP=4, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33', OSIZES='5,60', RATIOS='1.0,0.6,1.7'),
    FL('wrap6', T, CT=FAST, CH=6, NMIN=26, NMAX=62, NSTEP=4, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33', OSIZES='5,60', RATIOS='1.0,0.6,1.7'),
    FL('wrap7', T, CT=FAST, CH=7, NMIN=26, NMAX=62, NSTEP=4, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33', OSIZES='5,60', RATIOS='1.0,0.6,1.7'),
    FL('wrap128', T, CT=MED, CH=128, NMIN=30, NMAX=60, NSTEP=15, K1=1, KMAX=30, BN=40, OBUF=130, SIZES='33', OSIZES='60', RATIOS='1.0,0.6'),
    *[FL('bit%d' % c, T, CT=MED if c == 7 else FAST, CH=c, NMIN=40, NMAX=70, NSTEP=10, K1=1, KMAX=500, BN=1 + c % 3, OBUF=1 if c % 2 else 3, SIZES='1,2', OSIZES='1',
         RATIOS='1.0,0.6,1.7' if c % 2 else '0.5,2.0,1.1') for c in (1, 2, 3, 4, 6, 7)],
    FL('rat', S, CT=FAST, CH=2, NMIN=1, NMAX=40, NSTEP=3, K1=1, KMAX=30, BN=23, OBUF=500, SIZES='0,5,31', OSIZES='0,3', RATIOS=MR),
    FL('lo', S, CT=FAST, NMIN=400, NMAX=1300, NSTEP=123, K1=1, KMAX=30, BN=700, OBUF=30, SIZES='0,600', OSIZES='0,3', RATIOS='1.0/256', Dt=dict(NSTEP=17)),
    FL('hi', S, CT=FAST, CH=2, NMIN=1, NMAX=3, K1=1, KMAX=30, BN=1, OBUF=900, SIZES='0,1', OSIZES='0,300', RATIOS='256.0'),
])
PW = lambda n, **k: J(n, 'prog.c', T, **{**dict(CT=FAST, CH=1, WARM=90, K1=1, NLO=1, NHI=4, MLO=1, MHI=3, EOIMAX=1, STEPS=20000, SIZES='1,2,3,5', OSIZES='1,2,60', RATIOS='1.0,0.6,1.7', reach=['progress']), **k})
P('C10', [
    *[PW('tiny%d' % c, CH=c, CT=MED if c == 5 else FAST) for c in (1, 2, 3, 4, 5, 6)],
    J('lin', 'prog.c', CT=LIN, CH=1, K1=2, NLO=1, NHI=2, MLO=1, MHI=2, EOIMAX=0, STEPS=40, **FULL, Dt=dict(NHI=3, MHI=3)),
    J('zoh', 'prog.c', CT=ZOH, CH=1, K1=2, NLO=1, NHI=2, MLO=1, MHI=2, EOIMAX=0, STEPS=40, **FULL, Dt=dict(NHI=3, MHI=3)),
    J('fast', 'prog.c', S, CT=FAST, CH=1, K1=2, PRE=1, SIZES='0,5,9', OSIZES='0,2', NLO=0, NHI=8, MLO=0, MHI=3, EOIMAX=1, STEPS=20000, RATIOS='1.0, 0.7'),
    J('fastv', 'prog.c', S, CT=FAST, CH=1, K1=2, NLO=1, NHI=2, MLO=1, MHI=3, EOIMAX=0, STEPS=20000, SETR=1, RATIOS='1.0, 0.01, 256.0'),
    J('wrap', 'prog.c', T, CT=FAST, CH=1, K1=3, PRE=2, STEPS=20000, RATIOS=R2, **W1),
    J('wrap3', 'prog.c', T, CT=FAST, CH=3, K1=3, PRE=2, STEPS=20000, RATIOS=R2, **{**W1, 'NLO': 24, 'NHI': 36}),
    J('x1', 'prog.c', S, CT=FAST, CH=1, STEPS=300000, **{**AX, 'NLO': 0, 'NHI': 20}), J('x6', 'prog.c', S, CT=FAST, CH=6, STEPS=600000, **{**AX, 'NHI': 390}),
    J('cb', 'cb.c', CT=LIN, CH=1, NIN=6, TOT=30, NBK=2, K1=1, KMAX=20, OBLK=4, SIZES='0,1,2', OSIZES='0,1,3', RATIOS=R4, CTOL='1e-6'),
])
CL = lambda n, v='real', **k: J(n, 'clone.c', v, **{**dict(K1=1, reach=['end']), **k})
CB = lambda n, v='real', **k: J(n, 'cbclone.c', v, **{**dict(NBK=2, O2=5, reach=['output']), **k})
CBL = dict(NIN=12, K1=2, BN=3, SIZES='0,2', OSIZES='0,1,3', RATIOS='1.0, 0.7')
CBS = dict(NIN=40, K1=1, BN=7, SIZES='0,8', OSIZES='0,1,3', RATIOS=R2)
CLL = dict(N2=3, M2=4, SIZES='0,1,3', RATIOS=R4)
CLS = dict(N2=9, M2=8, SIZES='0,1,13', RATIOS=R2)
CLH = dict(N2=60, M2=12, SIZES='150', OSIZES='20', RATIOS='0.4, 0.25')
CLW = dict(N2=21, M2=8, SIZES='17,31', OSIZES='9,60', RATIOS=R2)
P('C11', [
    CL('linr', CT=LIN, CH=1, N2=1, M2=1, SIZES='2', OSIZES='1', RLO=0.5, RHI=2.0, budget=150, R2X='1.0'),
    CL('lin', CT=LIN, CH=2, **CLL), CL('zoh', CT=ZOH, CH=3, **CLL),
    CL('fast1', S, CT=FAST, CH=1, **CLS), CL('fast2', S, CT=FAST, CH=2, **CLS), CL('fast3', S, CT=FAST, CH=3, **{**CLS, 'SIZES': '1,13'}),
    CL('med4', S, CT=MED, CH=4, **{**CLS, 'SIZES': '13'}), CL('med6', S, CT=MED, CH=6, **{**CLS, 'SIZES': '13'}),
    CL('wrap', T, CT=FAST, CH=1, **{**CLW, 'K1': 2}),
    *[CL('hist%d' % c, S, CT=MED if c == 5 else FAST, CH=c, **CLH) for c in (1, 2, 3, 4, 5, 6)],
    *[CL('fresh%d' % c, v, CT=ct, CH=c, **{**CLS, 'K1': 0}) for v, ct, c in (('real', LIN, 1), (S, FAST, 2), (S, MED, 3), (S, FAST, 4), (S, FAST, 6))], CL('freshz', CT=ZOH, CH=5, **{**CLS, 'K1': 0}),
    CB('cblin', CT=LIN, CH=2, RESET=0, **CBL), CB('cbzoh', CT=ZOH, CH=1, RESET=0, **CBL), CB('cbfast', S, CT=FAST, CH=3, RESET=0, **CBS),
])
RS = lambda n, v='real', **k: J(n, 'reset.c', v, **{**dict(K1=1, reach=['end']), **k})
P('C12', [
    RS('linr', CT=LIN, CH=1, N2=1, M2=1, SIZES='2', OSIZES='1', RLO=0.5, RHI=2.0, budget=150, R2X='1.0'),
    RS('lin', CT=LIN, CH=2, **CLL), RS('zoh', CT=ZOH, CH=3, **CLL),
    RS('fast1', S, CT=FAST, CH=1, **CLS), RS('fast2', S, CT=FAST, CH=2, **CLS), RS('fast3', S, CT=FAST, CH=3, **{**CLS, 'SIZES': '1,13'}),
    RS('med4', S, CT=MED, CH=4, **{**CLS, 'SIZES': '13'}), RS('med6', S, CT=MED, CH=6, **{**CLS, 'SIZES': '13'}),
    *[RS('hist%d' % c, S, CT=MED if c == 5 else FAST, CH=c, **CLH) for c in (1, 2, 3, 4, 5, 6)],
    RS('wrap', T, CT=FAST, CH=1, **{**CLW, 'K1': 2}), RS('wrap2', T, CT=FAST, CH=2, **{**CLW, 'K1': 2}),
    CB('cblin', CT=LIN, CH=2, RESET=1, **CBL), CB('cbzoh', CT=ZOH, CH=1, RESET=1, **CBL), CB('cbfast', S, CT=FAST, CH=3, RESET=1, **CBS),
])
P('C15', [
    J('ctor', 'args.c', S, PART=0),
    J('nulls', 'args.c', S, PART=1), J('noerr', 'args.c', S, PART=3, reach=['no error pointer', 'refused without error pointer']),
    J('reqlin', 'args.c', S, PART=2, CT=LIN, CH=2),
    J('reqzoh', 'args.c', S, PART=2, CT=ZOH, CH=1),
    J('reqfast', 'args.c', S, PART=2, CT=FAST, CH=2),
])
P('C16', [
    J('lin', 'overlap.c', CT=LIN, CH=1, AR=16, NB=4, MB=4, NLO=1),
    J('lin2', 'overlap.c', CT=LIN, CH=2, AR=16, NB=3, MB=3, NLO=1),
    J('zoh3', 'overlap.c', CT=ZOH, CH=3, AR=20, NB=2, MB=3, NLO=1),
    *[J('huge_' + n, 'overhuge.c', v, CT=ct, CH=c, SPAN=3, OSZ=3, reach=['disjoint', 'overlap']) for n, v, ct, c in (('lin', 'real', LIN, 1), ('zoh', 'real', ZOH, 2), ('fast', S, FAST, 3))],
    J('fast6', 'overlap.c', S, CT=FAST, CH=6, AR=40, NB=3, MB=3, NLO=1),
])
P('C17', [J('lin', 'fault.c', CT=LIN, CH=2, NF=2), J('fast', 'fault.c', S, CT=FAST, CH=2, NF=2), J('zoh', 'fault.c', CT=ZOH, CH=1, NF=2),
          J('med', 'fault.c', S, CT=MED, CH=3, NF=2), J('medb', 'fault.c', S, CT=MED, CH=1, NF=2)])
P('C18', [J('lin', 'life.c', CT=LIN, CH=2, K1=3), J('zoh', 'life.c', CT=ZOH, CH=1, K1=3), J('fast', 'life.c', S, CT=FAST, CH=2, K1=3, RATIOS=R2),
          J('med', 'life.c', S, CT=MED, CH=4, K1=2, RATIOS='0.3'), J('fast3', 'life.c', S, CT=FAST, CH=3, K1=2, RATIOS='2.0'), J('wrap', 'life.c', T, CT=FAST, CH=1, K1=3, RATIOS='0.3')])
IS = lambda n, **k: J(n, 'iso.c', S, **{**dict(K1=2, reach=['end']), **k})
P('C19', [IS('lin', CT=LIN, CH=2, CTB=FAST, CHB=1, SIZES='0,1,3', RATIOS='1.0, 0.7'),
          IS('zoh', CT=ZOH, CH=1, CTB=ZOH, CHB=2, SIZES='0,3', RATIOS='1.0, 0.7'),
          IS('fast1', CT=FAST, CH=1, CTB=FAST, CHB=1, SIZES='1,14', RATIOS=R2),
          IS('fast2', CT=FAST, CH=2, CTB=FAST, CHB=2, SIZES='14', RATIOS=R2),
          IS('fast3', CT=FAST, CH=3, CTB=FAST, CHB=3, SIZES='14', RATIOS=R2),
          IS('med4', CT=MED, CH=4, CTB=FAST, CHB=4, SIZES='14', RATIOS='0.6'),
          IS('med6', CT=MED, CH=6, CTB=MED, CHB=6, SIZES='14', RATIOS='0.6'),
          *[IS('hist%d' % c, CT=MED if c == 4 else FAST, CH=c, CTB=FAST, CHB=c, SIZES='70', OSIZES='9', RATIOS='0.35') for c in (1, 2, 3, 4, 6)]])
CBK = lambda n, v='real', **k: J(n, 'cb.c', v, **{**dict(NBK=2, K1=2, KMAX=20, CTOL='1e-6', reach=['output']), **k})
CKL = dict(NIN=6, TOT=30, OBLK=4, SIZES='0,1,2', OSIZES='0,1,3', RATIOS='1.0, 0.5, 1.3')
CKS = dict(NIN=20, TOT=60, OBLK=7, SIZES='0,4,10', OSIZES='0,1,5', RATIOS=R2)
CKH = dict(NIN=150, TOT=220, OBLK=31, K1=1, SIZES='39,90', OSIZES='1,9', RATIOS='0.25,1.3', CTOL='5e-5')
CKX = dict(NIN=900, TOT=20, OBLK=3, K1=1, SIZES='3,399', OSIZES='0,1', RATIOS='(1.0/256),0.01')
CKY = dict(NIN=4, TOT=1200, OBLK=301, K1=1, SIZES='0,1', OSIZES='1,255', RATIOS='256.0,200.0')
P('C20', [
    CBK('lin', CT=LIN, CH=1, **CKL), CBK('zoh2', CT=ZOH, CH=2, **{**CKL, 'RATIOS': '0.7, 2.0'}),
    CBK('fast', S, CT=FAST, CH=1, **CKS), CBK('fast3', S, CT=FAST, CH=3, **{**CKS, 'SIZES': '0,10', 'RATIOS': '1.3'}),
    *[CBK('hist%d' % c, S, CT=MED if c == 5 else FAST, CH=c, **CKH) for c in (1, 2, 4, 5, 6)],
    CBK('lin_lo', CT=LIN, CH=2, **CKX), CBK('zoh_lo', CT=ZOH, CH=1, **CKX), CBK('lin_hi', CT=LIN, CH=1, **CKY), CBK('zoh_hi', CT=ZOH, CH=3, **CKY),
    *[J('huge_' + n, 'cbhuge.c', v, CT=ct, CH=c, K1=3, SPAN=3, OSZ=3, BLK=12, RATIOS=r, reach=['huge block', 'huge read']) for n, v, ct, c, r in (('lin', 'real', LIN, 2, '1.0,0.6'), ('zoh', 'real', ZOH, 1, '1.7'), ('fast', S, FAST, 1, '0.6'))],
    CBK('wrap', T, CT=FAST, CH=1, NIN=70, TOT=170, OBLK=40, K1=1, NBK=3, SIZES='16,30', OSIZES='5,60', RATIOS='1.0,0.6,1.7', CTOL='5e-5'),
])
CE = lambda n, v='real', **k: J(n, 'cberr.c', v, **{**dict(K1=2, reach=['end']), **k})
CF = lambda n, v='real', **k: J(n, 'cbfail.c', v, **{**dict(OM=24, reach=['first block', 'null', 'end']), **k})
P('C21', [CE('lin', CT=LIN, CH=2, SIZES='1,4', OSIZES='1,5', RATIOS='1.0, 0.7'), CE('zoh', CT=ZOH, CH=1, SIZES='1,4', OSIZES='1,5', RATIOS='1.0, 0.7'),
          CE('fast', S, CT=FAST, CH=1, SIZES='1,14', OSIZES='1,5', RATIOS='1.0, 0.7'), CE('fast3', S, CT=FAST, CH=3, SIZES='14', OSIZES='1,5', RATIOS='1.0, 0.7'),
          CF('f_lin', CT=LIN, CH=2, SIZES='1,3', OSIZES='1,5', RATIOS='1.0,0.7,1.8'), CF('f_zoh', CT=ZOH, CH=1, SIZES='1,3', OSIZES='1,5', RATIOS='1.0,0.7,1.8'),
          CF('f_fast', S, CT=FAST, CH=1, SIZES='3,14', OSIZES='1,5', RATIOS='1.0,0.7'), CF('f_fast3', S, CT=FAST, CH=3, SIZES='3,14', OSIZES='5', RATIOS='1.0,0.7')])
SI = lambda n, v='real', **k: J(n, 'simple.c', v, **{**dict(BADR='300.0', reach=['success', 'error']), **k})
P('C25', [SI('lin', CT=LIN, CH=2, SIZES='-1,0,1,5', RATIOS=R4), SI('zoh', CT=ZOH, CH=3, SIZES='-1,0,1,5', RATIOS=R4),
          SI('linr', CT=LIN, CH=1, SIZES='0,1,3', RLO=0.25, RHI=4.0),
          SI('fast', S, CT=FAST, CH=2, SIZES='-1,0,1,15', RATIOS=R2, BADR='0.0'), SI('med3', S, CT=MED, CH=3, SIZES='0,15', RATIOS=R2, BADR='0.0'), SI('medb', S, CT=MED, CH=1, SIZES='0,15', RATIOS=R2, BADR='-1.0'),
          *[SI('hist%d' % c, S, CT=MED if c == 5 else FAST, CH=c, SIZES='150', OSIZES='7,200', RATIOS='0.3,2.0') for c in (1, 2, 3, 4, 5, 6)],
          SI('lin_x', CT=LIN, CH=1, SIZES='3,600', OSIZES='0,600', RATIOS=XR), SI('zoh_x', CT=ZOH, CH=2, SIZES='3,600', OSIZES='0,600', RATIOS=XR)])
SN = lambda n, v='real', **k: J(n, 'sinc.c', v, **{**dict(NIN=60, K1=1, KMAX=6, OMX=12, JMAX=12, CTOL='1e-4', SIZES='0,7', OSIZES='1,5', reach=['output']), **k})
GN = lambda n, **k: J(n, 'gain.c', **{**dict(CH=1, NIN=150, OMX=80, GTOL='2e-4', reach=['interior']), **k})
SNX = dict(NIN=2500, CTOL='5e-3', SIZES='900', OSIZES='5', RATIOS=XR)
P('C07', [
    SN('fast1', CT=FAST, CH=1, RATIOS='1.0, 1.5, 0.6'), SN('fast2', CT=FAST, CH=2, RATIOS='1.5, 0.6'), SN('fast3', CT=FAST, CH=3, RATIOS='1.0, 0.6'),
    SN('fast4', CT=FAST, CH=4, RATIOS='1.5, 0.6'), SN('fast6', CT=FAST, CH=6, RATIOS='1.5, 0.6'), SN('fast5', CT=FAST, CH=5, RATIOS='0.6', SIZES='7', OSIZES='5'),
    SN('med1', CT=MED, CH=1, NIN=110, RATIOS='1.0, 0.7'), SN('med3', CT=MED, CH=3, NIN=110, RATIOS='1.5', SIZES='7', OSIZES='5', JMAX=8),
    *[SN('r%d' % c, S, **({'MAG': '64.0'} if c != 2 else {}), CT=(MED if c == 5 else FAST), CH=c, NIN=200, CTOL='5e-3', SIZES='0,31,90', OSIZES='1,5', RATIOS=MR) for c in (1, 2, 3, 4, 5, 6)],
    SN('x1', S, CT=FAST, CH=1, **SNX), SN('x2', S, CT=FAST, CH=2, **SNX), SN('x3', S, CT=MED, CH=3, **SNX), SN('x4', S, CT=FAST, CH=4, **SNX), SN('x5', S, CT=MED, CH=5, **SNX), SN('x6', S, CT=FAST, CH=6, **SNX),
    SN('wrap1', T, CT=FAST, CH=1, NIN=90, RATIOS='1.0, 0.6, 1.7', CTOL='5e-3', K1=2, KMAX=12, OMX=40, JMAX=400, SIZES='17,31', OSIZES='9,60'),
    SN('wrap2', T, CT=FAST, CH=2, NIN=90, RATIOS='0.6, 1.7', CTOL='5e-3', K1=1, KMAX=12, OMX=40, JMAX=400, SIZES='17,31', OSIZES='9,60'),
    SN('wrap4', T, CT=FAST, CH=4, NIN=90, RATIOS='0.6', CTOL='5e-3', K1=1, KMAX=12, OMX=40, JMAX=400, SIZES='17,31', OSIZES='9,60'),
    SN('wrap6', T, CT=FAST, CH=6, NIN=90, RATIOS='0.6', CTOL='5e-3', K1=1, KMAX=12, OMX=40, JMAX=400, SIZES='17,31', OSIZES='9,60'),
    SN('wrap3', T, CT=FAST, CH=3, NIN=90, RATIOS='0.6', CTOL='5e-3', K1=1, KMAX=12, OMX=40, JMAX=400, SIZES='17,31', OSIZES='9,60'),
    GN('gain1', CT=FAST, LEAD=60, RATIOS='1.0,0.5,1.7,0.37,2.0,0.93'), GN('gain4', CT=FAST, CH=4, LEAD=60, RATIOS='0.5'), GN('gain6', CT=FAST, CH=6, LEAD=60, RATIOS='0.5'), GN('gain3', CT=FAST, CH=3, LEAD=60, RATIOS='0.5'),
    GN('gain2', CT=FAST, CH=2, LEAD=60, RATIOS='0.5'), GN('gainm', CT=MED, LEAD=80, RATIOS='1.0,0.7,1.7,0.93'),
    J('sm_f', 'smooth.c', CT=FAST, CH=1, NIN=45, OMX=2480, RATIOS='128.0', SB='6e-6', reach=['response']), J('sm_m', 'smooth.c', CT=MED, CH=1, NIN=98, OMX=11720, RATIOS='256.0', SB='6e-6', reach=['response']),
])
SV = lambda n, **k: J(n, 'sincv.c', S, **{**dict(CT=FAST, CH=1, NIN=120, NFIX=40, K1=2, MLO=2, MHI=3, CTOL='5e-3', RATIOS='1.0,2.0,0.5', reach=['set', 'glide']), **k})
VA = lambda n, **k: J(n, 'vari.c', **{**dict(NIN=60, NFIX=20, MLO=1, MHI=3, SETMODE=2, reach=['set', 'glide']), **k})
VLO = dict(K1=2, NIN=2000, NFIX=660, RATIOS='(1.0/256), 1.0, 256.0')
SVS = lambda n, **k: J(n, 'sincv.c', S, **{**dict(CT=FAST, CH=1, NIN=240, STARVE=1, SIZES='23,60', K1=3, MLO=30, MHI=30, CTOL='5e-3', RATIOS='0.15,1.0', reach=['set', 'glide']), **k})
FV = dict(NIN=120, NFIX=40, K1=2, MLO=24, MHI=24, RATIOS='1.0, 1.0009, 0.9995')
P('C13', [SVS('st1', RATIOS='0.15,1.0,2.0'), *[SVS('st%d' % c, CH=c, CT=MED if c == 5 else FAST) for c in (2, 3, 4, 5, 6)], VA('fine_lin', CT=LIN, **FV), VA('fine_zoh', CT=ZOH, **FV),
          VA('setx_lin', CT=LIN, K1=2, SETX=1, SETMODE=0, RATIOS='1.0, 2.0, 0.5'), VA('setx_zoh', CT=ZOH, K1=2, SETX=1, SETMODE=0, RATIOS='1.0, 2.0, 0.5'), VA('setx_cb', CT=LIN, K1=2, SETX=1, SETMODE=0, NIN=100, CBM=1, RATIOS='1.0, 2.0, 0.5'),
          *[SV('setx%d' % c, CH=c, CT=MED if c == 5 else FAST, SETX=1, MLO=3, RATIOS='1.0,0.5') for c in (1, 2, 3, 4, 5, 6)],
          VA('cblin', CT=LIN, K1=3, NIN=100, CBM=1, RATIOS='1.0, 2.0, 0.5'), VA('cbzoh', CT=ZOH, K1=3, NIN=100, CBM=1, RATIOS='1.0, 2.0, 0.5'),
          VA('lin', CT=LIN, K1=3, RATIOS='1.0, 2.0, 0.5'), VA('zoh', CT=ZOH, K1=3, RATIOS='1.0, 2.0, 0.5'),
          SV('fast1', K1=3, MLO=1), SV('fast2', CH=2), SV('fast3', CH=3), SV('fast4', CH=4), SV('fast6', CH=6), SV('med', CT=MED),
          VA('lin_lo', CT=LIN, **VLO), VA('zoh_lo', CT=ZOH, **VLO), SV('lo', NIN=3000, NFIX=1400, RATIOS='(1.0/256), 1.0, 256.0'),
          *[SV('dn%d' % c, CH=c, CT=MED if c == 5 else FAST, NIN=900, NFIX=300, K1=3 if c in (1, 2, 6) else 2, MLO=6, MHI=6, RATIOS='1.0,0.15') for c in (1, 2, 3, 4, 5, 6)],
          SV('fine', NIN=340, NFIX=170, MLO=150, MHI=150, RATIOS='1.0,1.0009')])
C_ = dict(engine='cbmc', budget=240)
P('C22', [J('short', 'b_f2i.c', N=2, unwind=6, **C_), J('int', 'b_f2i.c', N=2, WIDE=1, unwind=6, **C_),
          J('s12', 'arr.c', N=12, TOINT=1, unwind=16, **C_), J('i12', 'arr.c', N=12, TOINT=1, WIDE=1, unwind=16, **C_), J('sl', 'arr.c', TOINT=1, LONGN=70000), J('il', 'arr.c', TOINT=1, WIDE=1, LONGN=70000)])
P('C23', [J('short', 'b_i2f.c', N=2, unwind=6, **C_), J('int', 'b_i2f.c', N=2, WIDE=1, unwind=6, **C_), *[J(n, 'b_i2f.c', N=1, WIDE=1, WLO=lo, unwind=6, **C_) for n, lo in (('int0', '(-256)'), ('intie', '(16777216 - 256)'), ('intien', '(-16777216 - 256)'), ('inmid', '(0x40000000 - 256)'), ('inmax', '(0x7fffffff - 511)'), ('inmin', '(-0x7fffffff - 1)'))],
          J('s12', 'arr.c', N=12, unwind=16, **C_), J('i12', 'arr.c', N=12, WIDE=1, unwind=16, **C_), J('sl', 'arr.c', LONGN=70000), J('il', 'arr.c', WIDE=1, LONGN=70000)])
P('C14', [J('p%d_%d' % (p, ct), 'b_ratio.c', S, PART=p, CT=ct, unwind=6, **C_) for p in (0, 1, 2, 3, 4) for ct in (LIN, ZOH, FAST) if p < 3 or ct != FAST])
LO = lambda n, v='real', **k: J(n, 'loc.c', v, **{**dict(CH=1, K1=1, KMAX=30, OMX=60, SIZES='0,7', OSIZES='1,5', reach=['out of reach']), **k})
LOL = dict(NIN=9, PLACES='0,1,4,8', SIZES='0,2,3', OSIZES='1,2', K1=2, RATIOS='1.0, 0.5, 1.3, 0.7, 3.0')
LOR = dict(CH=1, NIN=3, PLACES='0,1,2', SIZES='1', OSIZES='1', K1=1, RLO=0.5, RHI=2.0, OMX=8, KMAX=8)
P('C26', [
    LO('lin', CT=LIN, CH=2, **LOL), LO('zoh', CT=ZOH, CH=1, **LOL), LO('linr', CT=LIN, **LOR), LO('zohr', CT=ZOH, **LOR),
    LO('fast1', CT=FAST, CH=1, NIN=70, PLACES='0,30,69', RATIOS='1.0,1.5,0.6'), LO('fast2', CT=FAST, CH=2, NIN=70, PLACES='0,69', RATIOS='1.0,0.8'),
    LO('fast4', CT=FAST, CH=4, NIN=70, PLACES='3', RATIOS='1.0,0.8'), LO('fast6', CT=FAST, CH=6, NIN=70, PLACES='3', RATIOS='1.0,0.8'), LO('med3', CT=MED, CH=3, NIN=120, PLACES='2,118', RATIOS='1.0'),
    *[LO('s%d' % c, S, CT=MED if c == 5 else FAST, CH=c, NIN=150, PLACES='0,70,149', RATIOS='0.1,0.5,1.7', SIZES='0,40', OSIZES='1,9') for c in (1, 2, 3, 4, 5, 6)],
    LO('wrap', T, CT=FAST, CH=1, NIN=70, PLACES='0,20,69', RATIOS='1.0,0.6,1.7', SIZES='17,31', OSIZES='9,60'), LO('wrap3', T, CT=MED, CH=3, NIN=70, PLACES='0,69', RATIOS='0.6,1.7', SIZES='17,31', OSIZES='9,60'),
    *[LO('sp%d' % c, S, CT=MED if c == 5 else FAST, CH=c, SPECIAL=c // 2, NIN=90, PLACES='0,50,89', RATIOS='0.5,1.7', SIZES='0,40', OSIZES='9') for c in (1, 2, 3, 4, 5, 6)],
    *[LO('one_%d%d' % (ct, c), v, CT=ct, CH=c, K1=0, NIN=139 // c if ct > 2 else 90, PLACES='70' if c == 1 else '20', OMX=300, RATIOS='0.71,0.37') for v, ct, c in (('real', LIN, 1), ('real', LIN, 2), ('real', ZOH, 1), (S, FAST, 1), (S, FAST, 2), (S, MED, 3), (S, FAST, 4), (S, FAST, 6))],
    LO('sp_lin', CT=LIN, SPECIAL=1, **{**LOL, 'CH': 2}), LO('sp_zoh', CT=ZOH, SPECIAL=0, **{**LOL, 'CH': 1}), LO('sp_wrap', T, CT=FAST, CH=2, SPECIAL=0, NIN=70, PLACES='0,69', RATIOS='0.6,1.7', SIZES='17,31', OSIZES='9,60'),
    *[J('nan_%s' % a, 'nonf.c', CT=c, N=3, RATIOS=r, unwind=8, **C_) for a, c, r in (('lin1', LIN, '1.0'), ('lin2', LIN, '1.7'), ('zoh1', ZOH, '0.6'), ('zoh2', ZOH, '1.7'))],
])
QU = lambda n, v='real', **k: J(n, 'query.c', v, **{**dict(K1=2, reach=['end']), **k})
CQ = lambda n, v='real', **k: J(n, 'cbquery.c', v, **{**dict(K1=3, reach=['end']), **k})
P('C27', [
    QU('lin', CT=LIN, CH=2, SIZES='0,3', OSIZES='1,4', RATIOS='1.0,0.6'), QU('zoh', CT=ZOH, CH=7, SIZES='0,3', OSIZES='1,4', RATIOS='1.0,0.6'),
    *[QU('fast%d' % c, S, CT=MED if c == 5 else FAST, CH=c, SIZES='0,14', OSIZES='1,9', RATIOS=R2) for c in (1, 2, 3, 4, 5, 6)], QU('wrap', T, CT=FAST, CH=1, SIZES='17,31', OSIZES='9,60', RATIOS=R2),
    CQ('cblin', CT=LIN, CH=2, BN=3, OSIZES='0,4', RATIOS='0.6'), CQ('cbzoh', CT=ZOH, CH=1, BN=3, K1=2, OSIZES='1,4', RATIOS='1.0,0.6'), CQ('cbfast', S, CT=FAST, CH=3, BN=9, OSIZES='1,4', RATIOS='0.6'),
])
P('C24', [J('names', 'names.c', PART=0, reach=['known', 'unknown']), J('errors', 'names.c', PART=1, reach=['known', 'unknown'])])
