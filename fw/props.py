"""What each property's check builds and runs."""
import configs
P = {}
def p(id, src, cfgs, budget=60000000, **k): P[id] = dict(src=src, cfgs=cfgs, tcfgs=k.pop('tcfgs', None) or sorted(set(cfgs) | set(configs.SIMD) | {'scalaru', 'c99O3', 'clangavx', 'ubsan', 'sse3', 'sse4', 'O0'}), budget=budget, **k)
VC = ['sse2', 'scalar', 'sse3dot', 'sse4dot', 'avx2fma', 'sse2u', 'clang', 'neon', 'neon64', 'wasm']
p('V01', ['props_vec.cpp'], VC); p('V02', ['props_vec.cpp'], VC); p('V03', ['props_vec.cpp'], VC); p('V04', ['props_vec.cpp'], VC)
p('V05', ['props_vec.cpp'], VC + ['fastdef']); p('V06', ['props_vec.cpp'], VC); p('V07', ['props_vec.cpp'], VC); p('V08', ['props_vec.cpp'], ['sse2', 'scalar', 'clang', 'avx2fma', 'c99O3'])
MC = ['sse2', 'scalar', 'sse3dot', 'sse4dot', 'avx', 'avx2fma', 'avxu', 'clang', 'neon', 'neon64', 'wasm']
for _i in ('M01', 'M02', 'M03', 'M04', 'A01', 'A02', 'A03'): p(_i, ['props_mat.cpp'], MC)
for _i in ('Q01', 'Q02', 'Q03', 'Q04'): p(_i, ['props_quat.cpp'], MC)
p('Q05', ['props_quat.cpp'], ['sse2', 'scalar', 'avx2fma', 'clang', 'lh_no', 'lh_zo', 'rh_zo', 'neon64'])
CLIPS = ['sse2', 'lh_no', 'rh_zo', 'lh_zo']
ALLAPI = lambda cfg: ('inl', 'call', 'str') if cfg in CLIPS else ('inl',)
for _i in ('C01', 'C02', 'C03', 'C04', 'C05'): p(_i, ['props_cam.cpp'], CLIPS + ['scalar', 'avx2fma', 'clang', 'neon64', 'wasm'], tcfgs=CLIPS + configs.SIMD[1:] + ['c99O3', 'clangavx', 'ubsan', 'O0', 'lh_zo_scalar'], apis=ALLAPI)
p('C06', ['props_cam.cpp'], CLIPS, tcfgs=CLIPS + ['lh_zo_scalar'], apis=ALLAPI, mustbuild=True)
GC = ['sse2', 'scalar', 'sse4dot', 'avx2fma', 'clang', 'neon64', 'wasm']
for _i in ('G01', 'G02', 'G03', 'G04', 'G05', 'G06'): p(_i, ['props_geo.cpp'], GC)

# cross-cutting properties: every test of the other properties is a source of in-domain calls
XSRC = ['props_x.cpp', 'props_vec.cpp', 'props_mat.cpp', 'props_quat.cpp', 'props_cam.cpp', 'props_geo.cpp']
def everything():
    import gensubj; return sorted(n for n, x in gensubj.table().items() if x.get('need') not in ('io', 'const', 'layout'))
p('X01', XSRC, ['sse2', 'scalar', 'clang', 'lh_no', 'rh_zo', 'lh_zo', 'structns', 'structomit', 'noanon', 'cxx'], tcfgs=['sse2', 'scalar', 'clang', 'noanon', 'cxx', 'cxxavx', 'lh_no', 'rh_zo', 'lh_zo', 'structns', 'structomit', 'lh_zo_scalar', 'avx', 'sse4dot', 'O0', 'sse2u', 'c99O3'], names=everything, apis=lambda cfg: ('inl', 'call', 'str'), budget=20000000, mustbuild=True)
p('X02', XSRC, ['scalar', 'sse2', 'sse1', 'sse3dot', 'sse4dot', 'avx', 'avx2fma', 'sse2u', 'avxu', 'scalaru', 'clang', 'clangavx', 'c99O3', 'neon', 'neon64', 'wasm', 'O0', 'cxx', 'noint', 'sse3', 'sse4', 'lh_zo', 'lh_zo_scalar'], tcfgs=[c for c in configs.ALL if c not in ('lh_no', 'rh_zo', 'initpat', 'initzero', 'structns', 'structomit', 'print3', 'noprint', 'fastdef', 'epsdef', 'epsuser', 'corners', 'sse1fast', 'debug', 'sepinc', 'lh_zo_sepinc') and not c.startswith('asan')], names=everything, apis=lambda cfg: ('inl',), budget=20000000, fuzz=False, refs=['scalar', 'lh_zo_scalar'], mustbuild=True)
def allrows():
    import gensubj; return sorted(n for n, x in gensubj.table().items() if x.get('need') not in ('const', 'layout'))
p('X03', XSRC + ['props_io.cpp'], ['sse2', 'scalar', 'avx2fma', 'avxu', 'neon64', 'wasm', 'ubsan', 'ubsanscalar', 'O0', 'initpat', 'initzero'] + configs.ASAN3, tcfgs=configs.SIMD + ['ubsan', 'ubsanscalar', 'O0', 'initpat', 'initzero', 'clangavx', 'lh_zo'] + configs.ASAN3, names=allrows, apis=lambda cfg: ('inl', 'call', 'str') if cfg == 'asan' else ('inl', 'str') if cfg == 'asanscalar' else ('inl',), modes=[0, 1, 2], budget=8000000, refs=['initpat', 'initzero'])
p('X04', XSRC, ['sse2', 'scalar', 'sse4dot', 'avx2fma', 'avxu', 'clang', 'neon', 'neon64', 'wasm'], tcfgs=configs.SIMD + ['c99O3', 'clangavx', 'O0', 'scalaru'], names=everything, apis=lambda cfg: ('inl',), budget=10000000)

PC = ['sse2', 'scalar', 'clang', 'avx2fma', 'neon64', 'wasm', 'print3', 'noprint']
def printing():
    import gensubj; return sorted(n for n, x in gensubj.table().items() if x.get('need') == 'io')
p('X05', ['props_x.cpp', 'props_io.cpp'], PC, tcfgs=PC + ['lh_zo', 'O0', 'c99O3'], names=printing, apis=lambda cfg: ('inl', 'call', 'str'), budget=2000000)
p('X07', XSRC, ['sse2', 'O0', 'scalar', 'avx2fma', 'neon64', 'wasm'], tcfgs=['sse2', 'scalar', 'sse4dot', 'avx', 'avx2fma', 'neon', 'neon64', 'wasm', 'clang', 'lh_zo', 'O0'], names=everything, apis=lambda cfg: ('inl', 'call', 'str') if cfg == 'sse2' else ('inl',), budget=8000000, fuzz=False, refs=True, twin=True, threads=2)
def consts():
    import gensubj; return sorted(n for n, x in gensubj.table().items() if x.get('need') == 'const')
p('X06', ['props_x.cpp', 'props_const.cpp'], ['sse2', 'scalar', 'clang', 'avx2fma', 'neon64', 'wasm', 'lh_no', 'rh_zo', 'lh_zo', 'c99O3', 'structns'], names=consts, apis=lambda cfg: ('inl', 'call', 'str'), budget=4000000, mustbuild=True)
def optional():
    import gensubj; return everything() + ['layout']
OPTS = ['sse2u', 'noint', 'noprint', 'debug', 'noanon', 'sepinc', 'epsdef', 'epsuser', 'corners', 'lh_no', 'rh_zo', 'lh_zo', 'lh_zo_sepinc', 'scalaru', 'avxun', 'nointavx', 'sse1fast']
OBASE = ['sse2', 'scalar', 'avx', 'sse1']
p('X08', XSRC, OBASE + OPTS, tcfgs=OBASE + OPTS + ['print3', 'lh_zo_scalar'], names=optional, apis=lambda cfg: ('inl', 'str') if cfg in ('scalar', 'scalaru', 'sse1', 'sse1fast', 'nointavx', 'noanon', 'noprint', 'lh_zo_scalar') else ('inl', 'call', 'str'), budget=16000000, fuzz=False, refs=True, mustbuild=True)
p('XALL', XSRC, ['sse2', 'scalar', 'sse4dot', 'avx2fma', 'neon', 'neon64', 'wasm', 'lh_zo', 'rh_zo', 'lh_no'], names=lambda: sorted(__import__('gensubj').plain()), apis=lambda cfg: ('inl',), budget=30000000)
