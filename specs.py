# one entry per claimed property: which harness entries run, with which bounds
def Q(tier,a,b): return a if tier=='quick' else b
FAMS=('LL','DE','AB','WO'); FULL=dict(LL='Lebedev-Laikov',DE='Delley',AB='Ahrens-Beylkin',WO='Womersley')
def c01(t): return [dict(h='c01.cpp',defs=('-DFAM_'+f,),entry='c01_%s_%s'%(k,f),jobs=8,bound=FULL[f]+': all 64-bit arguments') for f in FAMS for k in('size','order','next')]
# exactness tolerance per family in units of 1e-12 (sum over the 2l+1 harmonics of a degree, coefficients in [-1,1])
def c02(t): return [dict(h='c02.cpp',defs=('-DFAM_'+f,),entry='c02_'+f,san=False,jobs=8,to=60,params=dict(LO=lo,HI=hi,TOLB=tol),bound='%s: every size %d..%d, every degree up to the reported order, tolerance 2^-%d'%(FULL[f],lo,hi,tol)) for f,lo,hi,tol in(('LL',1,100000,38),('DE',1,100000,38),('AB',1,100000,34),('WO',1,100000,38))]
def c03(t):
    r=[dict(h='c03.cpp',defs=('-DFAM_'+f,),entry=e+f,san=False,jobs=8,bound=FULL[f]+b) for f in FAMS for e,b in(('c03_',': every 64-bit size'),('c03_pub_',': every published size'))]
    for i,f in enumerate(FAMS): r+=[dict(h='c03f.cpp',defs=('-DVPF=%d'%i,),entry='c03f_s2',tag=f,san=False,jobs=8,bound=FULL[f]+': angular factory, every 64-bit size'),dict(h='c03f.cpp',defs=('-DVPF=%d'%i,),entry='c03f_sph',tag=f,san=False,jobs=8,params=dict(HI=Q(t,2000,100000)),bound=FULL[f]+': spherical factories, every unsupported 64-bit size, supported sizes up to %d'%Q(t,2000,100000))]
    return r
def c20(t): return [dict(h='c20.cpp',entry=e,jobs=4,params=p,bound=b) for e,p,b in [
    ('c20_index1',{},'n<=4, index any 64-bit value, contents any reals'),('c20_index3',{},'n<=3'),('c20_storage',{},'n<=4'),('c20_index_large',{},'65, 129, 300 and 1025 elements, any 64-bit index'),('c20_sub_large',{},'300 elements, bounds out of 15 positions'),('c20_sub',{'N':Q(t,5,8)},'n<=%d, all 0<=b<e<=n'%Q(t,5,8))]]+[dict(h='inst.cpp',defs=('-DSUB3',),must=True,entry='c20_sub3',jobs=8,bound='three-dimensional rules of 1..4 points, all 0<=b<e<=n')]
# every size up to a bound, then strided sizes (odd stride: both parities) and the sizes around powers of two+[dict(h='big.cpp',entry='c20_big',tag='big',jobs=8,san=False,bound='66000 elements, ten edited positions, every index out of range')]+[dict(h='big.cpp',entry='c20_subbig',tag='big',jobs=8,san=False,bound='66000 elements, bounds out of six positions')]+[dict(h='c20.cpp',defs=('-DNDEBUG',),entry='c20_sub',tag='release',jobs=4,params={'N':Q(t,4,6)},bound='release build (NDEBUG): n<=%d'%Q(t,4,6))]
def sizes(entry,lo,hi,step,tolb,what,wall): return dict(h='c04.cpp',entry=entry,tag='%d-%d'%(lo,hi),jobs=8,san=False,steps=4000000000,params=dict(LO=lo,HI=hi,STEP=step,TOLB=tolb),wall=wall,bound='every n in %d..%d%s'%(lo,hi,', stride %d'%step if step>1 else '')+what)
def oned(entries,lo,hq,ht,tolb,big,bigtol,sq,st,what=''):
    def f(t):
        r=[]
        for e in entries:
            r.append(sizes(e,lo,Q(t,hq,ht),1,tolb,what,Q(t,300,3000)))
            h=Q(t,hq,ht)+1
            if big>h: r.append(sizes(e,h,big,Q(t,sq,st),bigtol,what,Q(t,300,3000)))
            r+=[sizes(e,p-1,p+1,1,bigtol,what,Q(t,300,3000)) for p in(512,1024,2048,4096) if p>h and p<=big+50]
        return r
    return f
def c07(t): return oned(['c07_modified'],1,1100,1100,36,1100,34,29,1)(t)+[dict(r,params=dict(r['params'],SOFT=1)) for r in oned(['c07_modified'],1101,1101,1101,34,8200,34,97,7)(t)]+oned(['c07_unit'],2,1100,2000,36,8200,34,97,7)(t)+[dict(h='c04.cpp',entry='c07_scaled',jobs=8,params=dict(LO=2,HI=Q(t,12,60)),bound='n in 2..%d, intervals 2^k*[a,b] for sixteen k between -300 and 300, every a,b in [-64,64] with b-a>=1/64'%Q(t,12,60)),dict(h='c04.cpp',entry='c07_trapezoid',jobs=8,params=dict(LO=2,HI=Q(t,200,400)),bound='n in 2..%d, every lo,up in [-64,64] with up-lo>=1/64'%Q(t,200,400))]
C8=('becke','mhl1','mhl2','mhl3','mhl4','mk','ta')
def c08(t): return [dict(h='c08.cpp',entry='c08_'+e,jobs=2,san=False,bound='every x in the open base interval, every R in [2^-30,2^30], alpha in [0,4]') for e in C8]
def c08post(*a):
    import radial; return radial.post(*a)
def c09(t):
    r=lambda e,lo,hi,st: dict(h='c09.cpp',entry='c09_'+e,tag=str(lo),jobs=4,san=False,steps=2000000000,params=dict(LO=lo,HI=hi,STEP=st),wall=Q(t,300,2000),bound='every n in %d..%d%s, every R in [2^-10,2^10]'%(lo,hi,', stride %d'%st if st>1 else ''))
    o=[r(e,1,Q(t,150,400),1) for e in('becke','mhl','mk')]+[r('ta',1,Q(t,40,120),1),r('default',1,Q(t,40,120),1)]
    o+=[r(e,Q(t,151,401),2100,Q(t,149,61)) for e in('becke','mhl','mk')]+[r(e,Q(t,41,121),Q(t,1100,2100),Q(t,149,61)) for e in('ta','default')]+[r(e,1023,1025,1) for e in('becke','mhl','mk')]
    o+=[dict(r(e,66000,66000,1),tag='66000',bound='n=66000: the first 65, last 600 and every 17th element, every R in [2^-10,2^10]') for e in('becke','mhl','mk','ta')]
    return o+[r('compose',1,Q(t,8,16),1),r('compose',Q(t,9,17),Q(t,300,600),Q(t,97,43))]
def c22(t): return [dict(h='c22.cpp',entry='c22_'+e,tag=str(lo),jobs=8,san=False,steps=4000000000,params=dict(LO=lo,HI=hi,STEP=st),wall=Q(t,200,2000),bound='every n in %d..%d%s'%(lo,hi,', stride %d'%st if st>1 else '')) for e in('becke','mhl','mk','ta') for lo,hi,st in((40,Q(t,160,400),1),(Q(t,161,401),Q(t,2100,4200),Q(t,89,47)),(1023,1025,1))]
def c10(t): return [dict(h='c10.cpp',entry='c10_product',jobs=8,params=dict(N=Q(t,4,6)),bound='up to %d radial x %d angular'%(Q(t,4,6),Q(t,4,6))),dict(h='c10.cpp',entry='c10_default',jobs=8,bound='2x2'),dict(h='c10.cpp',entry='c10_scaled',jobs=8,bound='2x2, radii and centre times 2^k, ten k from -150 to 150, weights times 2^-150, 2^-20, 2^60'),dict(h='big.cpp',entry='c10_big',jobs=8,san=False,bound='more than 65536 points: 260x260, 3x22000, 66000x1'),dict(h='c10.cpp',entry='c10_large',jobs=8,san=False,params=dict(SHAPES=8),bound='eight shapes up to 520 radial or 1030 angular elements')]
def c11(t): return [dict(h='c10.cpp',entry='c11_pruned',jobs=8,params=dict(N=Q(t,5,7)),wall=Q(t,300,2000),bound='every division of up to %d shells, rules of 1..3 points, 4 build routes'%Q(t,5,7)),dict(h='c10.cpp',entry='c11_single',jobs=8,bound='3x3'),dict(h='c10.cpp',entry='c11_scaled',jobs=8,bound='two regions, radii and centre times 2^k, ten k from -150 to 150, weights times 2^-150, 2^-20, 2^60'),dict(h='inst.cpp',defs=('-DPITER',),must=True,entry='c11_iter',jobs=8,params=dict(N=4),bound='partitions of up to 4 shells, copies and assignments'),dict(h='big.cpp',entry='c11_big',jobs=8,san=False,bound='more than 65536 points in three divisions'),dict(h='c10.cpp',defs=('-DNDEBUG',),entry='c11_pruned',tag='release',jobs=8,params=dict(N=Q(t,4,6)),bound='release build (NDEBUG): every division of up to %d shells'%Q(t,4,6)),dict(h='c10.cpp',entry='c11_large',jobs=8,san=False,params=dict(SHAPES=6),bound='six large arrangements, up to 100 shells, 70 regions and 130 angular points, 4 build routes')]
def c12(t): return [dict(h='c12.cpp',entry='c12_'+e,jobs=8,params=dict(STEPS=Q(t,3,4),NA=Q(t,1,2)),wall=Q(t,300,2500),bound='every history of %d operations (move, move through base, copy, clone, move-construct)'%Q(t,3,4)) for e in('unpruned','pruned')]+[dict(h='c12.cpp',entry='c12_'+e,jobs=8,san=False,params=dict(STEPS=2),wall=Q(t,300,2500),bound='every history of 2 operations on grids of 68 to 527 points') for e in('unpruned_large','pruned_large')]+[dict(h='big.cpp',entry='c12_big',tag='big',jobs=8,san=False,bound='66300 points: move, clone, copy, move-construct')]+[dict(h='c12.cpp',entry='c12_'+e,tag='scaled',jobs=8,params=dict(SC=1,STEPS=2),wall=Q(t,300,2500),bound='every history of 2 operations, radii and centres times 2^k, eleven k from -300 to 300') for e in('unpruned','pruned')]+[dict(h='c12.cpp',entry='c12_'+e,tag='long',jobs=8,params=dict(LONG=1,STEPS=Q(t,24,96)),wall=Q(t,300,2500),bound='seven patterns of %d operations'%Q(t,24,96)) for e in('unpruned','pruned')]
def c13(t):
    r=lambda e,b,**k: dict(h='c13.cpp',entry='c13_'+e,jobs=8,term=True,params=k,wall=Q(t,300,3000),bound=b)
    return [r('line','n<=%d on a line, lattice coordinates 72*k'%Q(t,4,5),N=Q(t,4,5),LO=-2,HI=Q(t,4,6)),r('plane','n<=%d, lattice coordinates 72*k'%Q(t,3,4),N=Q(t,3,4),LO=-1,HI=3),r('space','n<=3, lattice coordinates 72*k',N=3,LO=Q(t,0,-1),HI=Q(t,2,3)),r('coincident','1..%d coincident points anywhere'%Q(t,10,20),N=Q(t,10,20)),r('clusters','two sites on a line with up to %d points each'%Q(t,5,8),N=Q(t,5,8)),r('many','eight fixed arrangements of 5..%d and up to 513 points'%Q(t,30,90),N=Q(t,30,90),BIG=Q(t,8,10)),r('atomic','six atomic grids of 696..1100 points'),r('zero','1..3 arbitrary points')]+[dict(h='big.cpp',entry='c13_big',tag='big',jobs=8,san=False,bound='66000 points, six limits')]
def c21(t): return [dict(h='c13.cpp',entry='c21_'+e,jobs=8,params=k,wall=Q(t,300,3000),bound='up to %d points'%k['N']) for e,k in (('iterate',dict(N=4,DIMS=Q(t,2,3))),('at',dict(N=Q(t,4,6))),('const',dict(N=4)),('clone',dict(N=Q(t,4,5))),('recenter',dict(N=Q(t,4,5))),('generated',dict(N=Q(t,4,5))))]+[dict(h='c13.cpp',entry='c21_'+e,jobs=8,san=False,wall=Q(t,300,3000),bound='five divisions of 99..257 points into 1..120 batches') for e in('large','large_move')]+[dict(h='inst.cpp',defs=('-DCITER',),must=True,entry='c21_citer',jobs=8,params=dict(N=4),bound='up to 4 points, every division')]+[dict(h='big.cpp',entry='c21_big',tag='big',jobs=8,san=False,bound='66000 points, three divisions into up to 66000 batches, every index beyond the last batch')]
def c14(t): return [dict(h='c14.cpp',defs=('-DFAM_'+f,),entry='c14_%s_%s'%(e,f),san=False,jobs=8,wall=Q(t,300,2000),bound=FULL[f]+': every radial size 1..2^40, '+b) for f in FAMS for e,b in (('robust','every supported angular size'),('treutler','every supported angular size'),('create','two angular sizes, four radial schemes, three pruning schemes'),('unpruned','any 64-bit angular size'),('reject','every unsupported 64-bit angular size'))]
def c15(t):
    r=lambda e,b,**k: dict(h='c15.cpp',entry='c15_'+e,san=False,jobs=8,params=k,wall=Q(t,300,2000),bound=b)
    return [r('radial','n<=%d'%Q(t,12,40),N=Q(t,12,40)),r('traits','any 64-bit size, R and alpha in [-8,8]'),r('angular','sizes up to 100000 (every supported one)',HI=100000),r('unpruned','n<=%d'%Q(t,3,5),N=Q(t,3,5),S=Q(t,1,2)),r('unpruned_err','any enumerators, any 64-bit size'),r('pruned','n<=%d, every division'%Q(t,4,6),N=Q(t,4,6)),r('pruned_err','any enumerators, 0..2 regions'),r('missing',''),r('radial_large','eight sizes up to 300'),r('unpruned_large','10x302, 50x302, 3x1202 points and the like, 4x4 schemes'),r('pruned_large','four divisions with up to 73 shells and 33 regions'),r('pipeline_large','13, 25 and 50 shells, about 302 angular points'),r('pipeline','n<=%d'%Q(t,8,24),N=Q(t,8,24))]+[dict(h='c15.cpp',defs=('-DNDEBUG',),entry='c15_'+e,tag='release',san=False,jobs=8,params=dict(N=Q(t,3,5)),wall=Q(t,300,2000),bound='release build (NDEBUG)') for e in('pruned','pruned_err','pipeline')]
def c16(t): return [dict(h='c16.cpp',entry='c16_'+e,san=False,jobs=8,params=dict(LEN=Q(t,20,40)),bound='every byte string of length 0..%d'%Q(t,20,40)) for e in('radial','angular','disjoint','types')]+[dict(h='c16.cpp',entry='c16_'+e,tag='long',san=False,jobs=8,params=dict(LONG=1),bound='lengths from 2 below to 17 above 32, 64, 128, 256 and 512; first 20 and last 3 bytes arbitrary, the others one arbitrary byte') for e in('radial','angular')]
def c17(t): return [dict(h='c17.cpp',entry='c17_'+e,san=False,jobs=8,params=dict(NR=Q(t,2,3)),wall=Q(t,300,2000)) for e in('traits','own','region','spec','copy','unpruned')]+[dict(h='c17.cpp',entry='c17_many',san=False,jobs=8,wall=Q(t,300,2000),bound='3 to 70 regions, one arbitrary')]
def c18(t): return [dict(h='c18.cpp',entry='c18_'+e,jobs=2) for e in('finite','upper','lower','whole','ends','order','scaled')]
def c19(t): return [dict(h='c19.cpp',entry='c19_eval',jobs=8,params=dict(HI=24,XMAX=1024),bound='n 0..24, x in [-1024,1024]'),*[dict(h='c19.cpp',entry='c19_recur',tag=str(lo),jobs=8,steps=2000000000,params=dict(LO=lo,HI=hi,STEP=st),wall=Q(t,150,2000),bound='n %d..%d%s, x in (-1,1)'%(lo,hi,', stride %d'%st if st>1 else '')) for lo,hi,st in((1,Q(t,200,400),1),(Q(t,201,401),Q(t,1100,2100),Q(t,97,41)),(255,257,1),(511,513,1),(1023,1025,1))]]
def c23(t):
    r=lambda e,b,**k: dict(h='c23.cpp',entry='c23_'+e,jobs=8,params=k,wall=Q(t,300,2000),bound=b)
    return [r('line','up to %d elements'%Q(t,2,3),N=Q(t,2,3),STEPS=Q(t,3,4)),r('space','up to %d elements'%Q(t,2,3),N=Q(t,2,3),STEPS=Q(t,3,4)),r('sub','slices of 1..3 elements',STEPS=Q(t,3,4)),r('large','65, 257 and 1025 elements'),r('rules','seven one-dimensional rules, 2, 7 and 40 points',STEPS=Q(t,2,3)),r('radial','four radial rules, 1..4 points, every R',STEPS=Q(t,2,3)),r('angular','four angular families, a small and a medium size',STEPS=Q(t,2,3)),r('grids','2x2 and pruned grids',STEPS=Q(t,3,4)),r('big','the fifteen rules with 68 to 1014 points, %d operation(s)'%Q(t,1,2),STEPS=Q(t,1,2)),r('biggrid','spherical and pruned grids of up to 2000 points',STEPS=Q(t,1,2))]+[dict(h='big.cpp',entry='c23_huge',tag='big',jobs=8,san=False,bound='66000 elements')]+[dict(h='c23.cpp',entry='c23_'+e,tag='long',jobs=8,params=dict(LONG=1,STEPS=Q(t,24,96),N=2),wall=Q(t,300,2000),bound='seven patterns of %d operations'%Q(t,24,96)) for e in('line','space','sub','rules','radial','angular','grids')]
def c26(t):
    r=lambda e,b,**k: dict(h='c26.cpp',entry='c26_'+e,jobs=8,params=k,wall=Q(t,300,2000),bound=b)
    return [r(e,'0..%d x 0..%d elements'%(Q(t,4,6),Q(t,4,6)),N=Q(t,4,6)) for e in('scalar','mixed','space')]+[r('mixed','six shapes up to 1030 elements',LARGE=6),r('scalar','six shapes up to 1030 elements',LARGE=6),r('slice','slices of up to 3'),r('spherical','')]+[dict(h='big.cpp',entry='c26_big',tag='big',jobs=8,san=False,bound='66000 and 66300 pairs')]
def c28(t):
    r=lambda e,b,**k: dict(h='c28.cpp',entry='c28_'+e,jobs=8,params=k,wall=Q(t,300,2000),bound=b)
    return [r('line','n in 0..%d'%Q(t,12,64),N=Q(t,12,64)),r('radial','n in 0..%d'%Q(t,12,64),N=Q(t,12,64)),r('grid','0..%d shells'%Q(t,6,12),N=Q(t,6,12)),r('batch','empty grids, every 64-bit limit')]
def c27(t):
    r=lambda e,lo,hi,st: dict(h='c27.cpp',entry='c27_'+e,tag=str(lo),jobs=8,san=False,steps=4000000000,params=dict(LO=lo,HI=hi,STEP=st),wall=Q(t,300,2000),bound='every n in %d..%d, stride %d'%(lo,hi,st))
    o=[r(e,1,Q(t,150,400),1) for e in('legendre','lobatto','cheby1','cheby2','cheby2m','cheby3','becke','mhl','mk')]+[r('ta',1,Q(t,60,200),1),r('trapezoid',1,Q(t,60,200),1)]+[r(e,Q(t,151,401),Q(t,600,1000),Q(t,37,17)) for e in('legendre','lobatto','cheby1','cheby2','cheby2m','cheby3')]
    o+=[dict(h='c27.cpp',defs=('-DGRIDS',),entry='c27_'+e,jobs=8,bound=b) for e,b in(('grid','1..4 shells, unpruned and pruned, three centres'),('batch','14..84 points, every limit to 60'))]
    return o+[dict(h='c27s.cpp',defs=('-DFAM_'+f,),entry='c27_'+f+x,tag=f,san=False,jobs=8,bound=FULL[f]+b) for f in FAMS for x,b in(('',': every supported size'),('_reject',': every 64-bit size'))]
def c24(t):
    r=lambda e,b,**k: dict(h='c24.cpp',entry='c24_'+e,jobs=8,params=k,wall=Q(t,300,2500),bound=b)
    return [r('same','33 kinds of request, every pair of %d variants, with and without a refused request'%8,V=8),r('cross','every ordered pair of 33 kinds, %d variants each'%Q(t,2,3),V=Q(t,2,3)),r('three','33 kinds, every triple of %d variants'%Q(t,3,5),V=Q(t,3,5)),r('lookup','next order, size and order lookups of the four angular families, every pair of arguments (orders to %d, sizes to %d)'%Q(t,(45,360),(220,1760)),HI=Q(t,45,220)),r('batch','every pair of limits up to 14 on three grids (a selection on the largest)',FULL=Q(t,0,1)),r('size','eleven rules, n in 2..%d after or before n+1, n+2, ..., n+256, 2n, every R and exponent'%Q(t,6,24),N=Q(t,6,24)),r('angular','every pair of supported sizes up to %d'%Q(t,320,1250),HI=Q(t,320,1250)),r('many','21 kinds: %d different requests, then all again in two orders'%Q(t,70,250),N=Q(t,70,250)),r('repeat','33 kinds: one request %d times'%Q(t,140,520),N=Q(t,140,520))]
def c25(t):
    r=lambda e,b,**k: dict(h='c25.cpp',entry='c25_'+e,jobs=8,san='thread',params=k,wall=Q(t,300,2500),bound=b)
    return [r('same','33 kinds of request, every pair of %d variants in two threads'%Q(t,6,8),V=Q(t,6,8)),r('cross','every pair of 33 kinds, %d variants each, in two threads'%Q(t,2,3),V=Q(t,2,3)),r('refused','a refused request against a granted or refused one'),r('rule','one rule used by two threads, four uses each'),r('traits','one parameter object, five uses each'),r('spec','one specification, five uses each'),r('grid','one grid, five uses each'),r('batch','one batcher, six uses each'),r('partition','one partition, four uses each')]
SPECS={
'C24':dict(runs=c24,par=2,bounds='33 kinds of request (seven one-dimensional, four radial and four angular rules, the same through the factories, unpruned and pruned grids, batching, next-order lookups, names, grids from user-defined rules) in up to 8 variants of sizes and parameters (1..590 points), real scale and exponent: every pair of variants of one kind with and without a refused request between, every ordered pair of kinds in 2 (thorough 3) variants, every triple of 3 (5) variants; every pair of arguments of the order and size lookups up to order 45 (220) or size 360 (1760); every pair of batch limits up to 14; rules of n in 2..6 (24) points before or after rules of n+2^k points (k to 16 for closed-form rules, to 9 for iterated ones) or 2n points; every pair of angular sizes up to 320 (1250); 70 (250) different requests of one kind and all again in two orders; one request 140 (520) times; results compared with those of a fresh process image; earlier results edited, moved and destroyed in between',reach=['c24_same:history','c24_same:refused','c24_cross:history','c24_three:history','c24_lookup:history','c24_batch:history','c24_size:history','c24_angular:history','c24_many:history','c24_repeat:history']),
'C25':dict(runs=c25,par=2,bounds='two threads; each makes one of 33 kinds of request in up to 6 (8) variants, every pair of kinds in 2 (3) variants; or both use one rule, parameter object, specification, grid, batcher or partition through const access, every pair of 4 to 6 uses; every pair of accesses to memory existing before the threads start is compared, whatever the interleaving',reach=['c25_same:pair','c25_cross:pair','c25_refused:pair']+['c25_%s:shared'%x for x in('rule','traits','spec','grid','batch','partition')]),
'C14':dict(runs=c14,par=2,bounds='every radial size 1..2^40, every supported angular size of the four families (rejection: every 64-bit size), R in [2^-10,2^10], alpha in [0,2]',reach=['c14_%s_%s:%s'%(e,f,r) for f in FAMS for e,r in(('robust','three regions'),('robust','fewer regions'),('treutler','three regions'),('unpruned','unpruned'),('reject','rejected'))]),
'C15':dict(runs=c15,par=2,bounds='every 32-bit enumerator value; radial sizes 1..12 (thorough 40) and eight up to 300; R and alpha in [-8,8]; every supported angular size up to 100000; product grids of up to 3 (5) shells with every scheme pair, larger ones up to 50 x 302 points; pruned grids of up to 4 (6) shells with every division, larger ones with up to 73 shells and 33 regions; whole pipelines of up to 8 (24), 13, 25 and 50 shells',reach=['c15_'+x for x in('radial:radial','radial:rejected','traits:made','traits:rejected','angular:angular','angular:rejected','unpruned:grid','unpruned_err:rejected','pruned:grid','pruned:several regions','pruned_err:rejected','pruned_err:accepted','missing:rejected','pipeline:pipeline')]),
'C16':dict(runs=c16,par=2,bounds='every byte string of length 0..20 (thorough 40), including embedded zero bytes; lengths within -2..17 of 32, 64, 128, 256, 512 with the first 20 and last 3 bytes arbitrary',reach=['c16_radial:accepted','c16_radial:rejected','c16_angular:accepted','c16_angular:rejected','c16_types:types'],assume=['the "C" locale (toupper/tolower change ASCII letters only)']),
'C17':dict(runs=c17,par=2,bounds='every 64-bit size, every real scale and exponent in [-8,8], every 32-bit enumerator; 0..2 (thorough 3) regions, 3..70 regions with one arbitrary; parameters present or missing on either side',reach=['c17_traits:equal','c17_traits:different','c17_region:equal','c17_region:different','c17_spec:equal','c17_spec:different','c17_copy:copied','c17_unpruned:copied']),
'C18':dict(runs=c18,par=4,bounds='every real node in (-1,1), weight in [-8,8], finite bounds in [-64,64], also times 2^k, k in -300..300',reach=['c18_%s:mapped'%e for e in('finite','upper','lower','whole')]+['c18_ends:ends','c18_order:ordered']),
'C19':dict(runs=c19,bounds='every degree 0..24 and every real x in [-1024,1024] with x^2 != 1 against explicit coefficients; every degree 1..200 (thorough 400), strided to 1100 (2100) and around 256, 512, 1024, and every x in (-1,1), against a second recurrence',reach=['c19_eval:evaluated','c19_recur:evaluated']),
'C13':dict(runs=c13,par=1,bounds='up to 4 (thorough 5) points at arbitrary lattice positions (multiples of 72) on a line, 3 (4) in a plane, 3 in space; up to 10 (20) coincident points at any real position; two sites with up to 5 (8) points each; eight fixed arrangements of 5..30 (90) points and up to 513, six atomic grids of 696..1100 points; 66000 points with six limits; every 64-bit maximum size; weights arbitrary reals',reach=['c13_line:several batches','c13_line:one batch','c13_coincident:coincident','c13_clusters:clusters','c13_many:five batches','c13_zero:rejected']),
'C21':dict(runs=c21,par=1,bounds='grids of up to 4 (thorough 6) points with arbitrary real coordinates (two symbolic coordinates per point, thorough three), every division into consecutive batches, every 64-bit batch index, centres arbitrary reals; five divisions of 99..257 points into up to 120 batches; 66000 points in 3 to 66000 batches; iteration of const batchers',reach=['c21_citer:iterated','c21_iterate:three batches','c21_at:beyond','c21_at:within','c21_clone:cloned','c21_recenter:moved','c21_generated:generated']),
'C10':dict(runs=c10,par=1,bounds='1..4 radial x 1..4 angular elements (thorough 6x6) and eight shapes up to 520 radial or 1030 angular elements, three shapes of 66000 to 67600 points (contents fixed but for one weight and the centre), all other contents and centres arbitrary reals; 2x2 elements with radii and centres times 2^k, ten k in -150..150, and weights times 2^-150, 2^-20, 2^60',reach=['c10_product:grid']),
'C11':dict(runs=c11,par=1,bounds='every division of 1..5 (thorough 7) shells into contiguous non-empty regions, angular rules of 1..3 points; six larger arrangements (up to 100 shells, 70 regions, 130 angular points), three with more than 65536 points, one of 700 regions; release builds (NDEBUG) up to 4 (6) shells; partition iteration, copies and assignments up to 4 shells; contents and centre arbitrary reals, for two regions also times the powers of two of C10',reach=['c11_pruned:three regions','c11_pruned:one shell','c11_pruned:one-shell regions','c11_single:single','c11_iter:walked']),
'C12':dict(runs=c12,par=1,bounds='histories of 3 (thorough 4) operations over {move, move through the base interface, copy, clone, move-construct} on 2- and 3-point (thorough up to 4-point) grids, histories of 2 operations on grids of 68 to 527 points; seven patterns of 24 (96) operations; 66300 points; contents and centres arbitrary reals, histories of 2 operations also with them times 2^k',reach=['c12_%s:%s'%(a,b) for a in('unpruned','pruned') for b in('moved','copied','cloned')]),
'C09':dict(runs=c09,par=2,bounds='Becke, Murray-Handy-Laming, Mura-Knowles: n in 1..150 (thorough 400), stride 149 (61) to 2100, 1023..1025, 66000; Treutler-Ahlrichs and defaults: n in 1..40 (120), stride to 1100 (2100), Treutler-Ahlrichs 66000; every R in [2^-10,2^10]; alpha in {0,0.25,0.6,0.9375,1,1.5} against the published formula; any alpha in [0,2] for the composition (n<=8, stride 97 to 300; thorough 16, 600)',reach=['c09_%s:grid'%e for e in('becke','mhl','mk','ta')]+['c09_default:defaults','c09_compose:composed']),
'C08':dict(runs=c08,par=4,post=c08post,bounds='x: whole open base interval; R in [2^-30,2^30]; alpha in [0,4]; MHL exponents 1..4',reach=['c08_%s:transform'%e for e in C8]),
'C04':dict(runs=oned(['c04_legendre'],1,600,1500,38,2100,36,83,23),bounds='every n in 1..600 (thorough 1500), stride 83 (23) to 2100 and around 1024, 2048; all polynomials with Legendre coefficients in [-1,1], tolerance 2^-38 (2^-36 beyond the first range)',reach=['c04_legendre:rule']),
'C05':dict(runs=oned(['c05_lobatto'],2,600,1500,38,2100,36,83,23),bounds='every n in 2..600 (thorough 1500), stride 83 (23) to 2100 and around 1024, 2048; all polynomials with Legendre coefficients in [-1,1], tolerance 2^-38 (2^-36 beyond the first range)',reach=['c05_lobatto:rule']),
'C06':dict(runs=lambda t:oned(['c06_second'],1,500,1000,35,Q(t,2100,4100),32,83,41)(t)+oned(['c06_first'],1,500,1000,31,Q(t,2100,4100),28,83,41)(t)+oned(['c06_third'],1,400,800,29,1100,26,83,23)(t),par=1,bounds='every n in 1..500 (third kind 400; thorough 1000, 800), strided to 2100 (third 1100; thorough 4100) and around powers of two; all polynomials with Chebyshev coefficients in [-1,1], tolerance 2^-35 (second), 2^-31 (first), 2^-29 (third kind), 8 times that beyond the first range',reach=['c06_first:rule','c06_second:rule','c06_third:rule']),
'C07':dict(runs=c07,par=1,bounds='modified Chebyshev and unit trapezoid: every n up to 1100 (unit trapezoid thorough 2000), stride 97 (7) to 8200 and around powers of two; trapezoid on [lo,up]: n in 2..200 (thorough 400), every real lo,up in [-64,64] with up-lo>=1/64; n in 2..12 (60) on such intervals times 2^k, sixteen k in -300..300',reach=['c07_modified:rule','c07_trapezoid:rule','c07_unit:rule']),
'C01':dict(runs=c01,par=2,bounds='none on the arguments: all 2^64 sizes, orders and pairs of orders, four families',reach=['c01_%s_%s:%s'%(k,f,r) for f in FAMS for k,r in(('size','supported size'),('size','unsupported size'),('order','supported order'),('order','unsupported order'),('next','answered'),('next','above range'))],assume=[]),
'C02':dict(runs=c02,par=1,bounds='every size the family reports (up to 100000 points), all degrees up to the reported order (at most 400), coefficients in [-1,1] of the orthonormal real harmonics per degree; tolerance 2^-38=3.6e-12 (Ahrens-Beylkin 2^-34=5.8e-11)',reach=['c02_%s:grid'%f for f in FAMS],assume=['harmonic moments of the concrete table are computed in compensated double arithmetic (fully normalised recurrences)']),
'C03':dict(runs=c03,par=2,bounds='every 64-bit size on the constructors, the angular factory and the spherical factories (there: supported sizes up to 2000, thorough 100000)',reach=['c03_%s:%s'%(f,r) for f in FAMS for r in('supported','unsupported')]+['c03f_s2:supported','c03f_s2:unsupported','c03f_sph:supported','c03f_sph:unsupported'],assume=['memory allocation succeeds']),
'C20':dict(runs=c20,par=2,bounds='quadratures of at most 4 (sub-rules: 5, thorough 8; three-dimensional 4) elements with arbitrary contents, and 65, 129, 300, 1025, 66000 elements; release builds (NDEBUG) of slices; the access index is an unconstrained 64-bit value; slice bounds arbitrary',
  reach=['c20_sub3:slice','c20_index1:in range','c20_index1:out of range','c20_sub:interior slice','c20_sub:full slice'],assume=['sub-quadrature precondition 0<=b<e<=n (asserted by the library)']),
'C22':dict(runs=c22,par=2,bounds='every n in 40..160 (thorough 400), stride 89 (47) to 2100 (4200), 1023..1025; R in {0.001,0.5,1,2,7,1000}; alpha in {0,0.3,0.6,1}; integrands: every combination with coefficients in [-1,1] of the normalised r^(k+2) exp(-s r/R) and r^(k+2) exp(-(s r/R)^2/2), k=0..4, s in {0.5,1,2,4} (Becke, Murray-Handy-Laming), {8,16,32} (Mura-Knowles), {4,8,16} (Treutler-Ahlrichs); error below 1e-3 for n>=40, 1e-5 for n>=60, 1e-6 for n>=80, 1e-8 for n>=160, 1e-10 for n>=320, 1e-11 for n>=640',reach=['c22_%s:integral'%e for e in('becke','mhl','mk','ta')]),
'C23':dict(runs=c23,par=2,bounds='histories of 3 (thorough 4) operations over {copy, move, copy into the base, move into the base, storage in a growing container, edit through points()/weights(), edit through points_data()/weights_data()} on rules of 0..2 (thorough 3) one- or three-dimensional elements with arbitrary contents and on slices; 2 (3) operations on rules of 65, 257, 1025 elements, on the seven one-dimensional, four radial and four angular rules and on spherical grids; one operation (2) on the same rules with 68 to 1014 points; seven patterns of 24 (96) operations; 66000 elements',reach=['c23_big:big','c23_biggrid:big','c23_line:copied','c23_line:moved','c23_line:sliced','c23_space:edited','c23_angular:copied']),
'C26':dict(runs=c26,par=2,bounds='0..4 x 0..4 (thorough 6 x 6) elements, six shapes up to 1030 elements, three with more than 65536 pairs, scalar and three-dimensional factors and results, arbitrary contents, a family of non-commutative operations with a real parameter',reach=['c26_scalar:product','c26_mixed:product','c26_space:product','c26_scalar:empty']),
'C28':dict(runs=c28,par=2,bounds='sizes 0..12 (thorough 64) of the seven one-dimensional and four radial rules, atomic grids with 0..6 (12) shells and every pruning scheme, batches of empty grids with every 64-bit limit',reach=['c28_line:refused','c28_line:made','c28_radial:made','c28_grid:made','c28_batch:refused','c28_batch:made']),
'C27':dict(runs=c27,par=2,bounds='one-dimensional rules n in 1..150 (thorough 400), strided to 600 (1000); radial rules n in 1..150 (400; Treutler-Ahlrichs 60, 200), R in {0.5,1,1.5,2}; every supported angular size; grids of 1..4 shells, batches with every limit to 60; tolerances 2e-6 absolute for one-dimensional nodes and weights (trapezoid 4e-6), 2.5e-7 angular directions and relative 1e-6 angular weights, relative 2e-6+2e-7 n^2 radial nodes (four times that weights), 1e-5 grids',reach=['c27_legendre:rule','c27_lobatto:rule','c27_becke:rule','c27_grid:grid','c27_batch:batches']+['c27_%s:grid'%f for f in FAMS]+['c27_%s_reject:refused'%f for f in FAMS]),
}
