"""Build configurations of the code under test."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(HERE, 'shim')
NOSSE = ['-U__SSE__', '-U__SSE2__', '-U__SSE3__', '-U__SSSE3__', '-U__SSE4_1__', '-U__SSE4_2__', '-U__AVX__', '-U__AVX2__', '-U__FMA__', '-U__SSE_MATH__', '-U__SSE2_MATH__']
GO = ['-O2', '-std=gnu11']
CLIP = {0: [], 1: ['-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], 2: ['-DCGLM_FORCE_LEFT_HANDED'], 3: ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE']}
# name: (compiler, flags, clip, cpu feature needed)
C = {}
def c(name, cc, flags, clip=0, cpu=()): C[name] = dict(name=name, cc=cc, flags=flags + CLIP[clip], clip=clip, cpu=cpu)
c('sse2', 'gcc', GO)
c('scalar', 'gcc', GO + NOSSE)
c('sse3dot', 'gcc', GO + ['-msse3', '-DCGLM_SSE3_DOT'], cpu=('pni',))
c('sse3', 'gcc', GO + ['-msse3'], cpu=('pni',))
c('sse4dot', 'gcc', GO + ['-msse4.1', '-DCGLM_SSE4_DOT'], cpu=('sse4_1',))
c('sse4', 'gcc', GO + ['-msse4.2'], cpu=('sse4_2',))
c('avx', 'gcc', GO + ['-mavx'], cpu=('avx',))
c('avx2fma', 'gcc', GO + ['-mavx2', '-mfma'], cpu=('avx2', 'fma'))
c('sse2u', 'gcc', GO + ['-DCGLM_ALL_UNALIGNED'])
c('avxu', 'gcc', GO + ['-mavx2', '-mfma', '-DCGLM_ALL_UNALIGNED'], cpu=('avx2', 'fma'))
c('scalaru', 'gcc', GO + NOSSE + ['-DCGLM_ALL_UNALIGNED'])
c('noint', 'gcc', GO + ['-DCGLM_NO_INT_DOMAIN'])
c('nointavx', 'gcc', GO + ['-mavx', '-DCGLM_NO_INT_DOMAIN'], cpu=('avx',))
c('clang', 'clang', ['-O2', '-std=gnu11', '-Wno-everything'])
c('clangavx', 'clang', ['-O3', '-std=gnu11', '-mavx2', '-mfma', '-Wno-everything'], cpu=('avx2', 'fma'))
c('c99O3', 'gcc', ['-O3', '-std=c99', '-D_XOPEN_SOURCE=700'])
c('noanon', 'gcc', GO + ['-DCGLM_NO_ANONYMOUS_STRUCT'])
# the headers included from C++ (the library itself stays C)
CXX = ['-O2', '-std=gnu++17', '-fpermissive']
c('cxx', 'g++', CXX)
c('cxxavx', 'clang++', ['-O2', '-std=gnu++14', '-mavx2', '-mfma', '-Wno-everything'], cpu=('avx2', 'fma'))
c('neon', 'gcc', GO + NOSSE + ['-D__ARM_NEON', '-D__ARM_NEON_FP=4', '-DVF_SHIM', '-isystem', SHIM])
c('neon64', 'gcc', GO + NOSSE + ['-D__ARM_NEON', '-D__ARM_NEON_FP=4', '-DVF_SHIM', '-DVF_A64', '-D__aarch64__', '-D__ARM_FEATURE_FMA', '-isystem', SHIM])
c('wasm', 'gcc', GO + NOSSE + ['-D__wasm__', '-D__wasm_simd128__', '-DVF_SHIM', '-isystem', SHIM])
c('lh_no', 'gcc', GO, 2)
c('rh_zo', 'gcc', GO, 1)
c('lh_zo', 'gcc', GO, 3)
c('lh_zo_scalar', 'gcc', GO + NOSSE, 3)
c('ubsan', 'gcc', ['-O1', '-std=gnu11', '-fsanitize=undefined', '-fsanitize-undefined-trap-on-error', '-fno-sanitize-recover'])
c('ubsanscalar', 'gcc', ['-O1', '-std=gnu11', '-fsanitize=undefined', '-fsanitize-undefined-trap-on-error'] + NOSSE)
c('O0', 'gcc', ['-O0', '-std=gnu11'])
ASAN = ['-O1', '-std=gnu11', '-fsanitize=address', '-fsanitize-recover=address', '--param=asan-use-after-return=0']
c('asan', 'gcc', ASAN)
c('asanscalar', 'gcc', ASAN + NOSSE)
c('asanavx', 'gcc', ASAN + ['-mavx2', '-mfma'], cpu=('avx2', 'fma'))
c('initpat', 'gcc', ['-O1', '-std=gnu11', '-ftrivial-auto-var-init=pattern'])
c('initzero', 'gcc', ['-O1', '-std=gnu11', '-ftrivial-auto-var-init=zero'])
c('fastdef', 'gcc', GO + ['-D__FAST_MATH__'])
c('print3', 'gcc', GO + ['-DCGLM_PRINT_PRECISION=3', '-DCGLM_PRINT_MAX_TO_SHORT=1e3f', '-DGLM_TESTS_NO_COLORFUL_OUTPUT'])
c('noprint', 'gcc', GO + ['-DNDEBUG', '-DVF_NOPRINT'])
# the struct API's naming options: documented to rename every function that has a sub namespace (mat4_, vec3_, ...)
import re
SUB = re.compile(r'(i?vec[234]|mat[234](?:x[234])?|quat|aabb2d|aabb|ray)_(?!print$|step_uni$)(\w+)$')
def naming(ns, suffix):
    def f(n):
        m = SUB.match(n); return ns + m.group(1) + suffix + '_' + m.group(2) if m else 'glms_' + n
    return f
c('structns', 'gcc', GO + ['-DCGLM_STRUCT_API_NS=zz', '-DCGLM_STRUCT_API_NAME_SUFFIX=q']); C['structns']['sname'] = naming('zz_', 'q')
c('structomit', 'gcc', GO + ['-DCGLM_OMIT_NS_FROM_STRUCT_API']); C['structomit']['sname'] = naming('', '')
# documented options that change nothing, or only what they announce (X08)
c('sse1', 'gcc', GO + ['-U__SSE2__', '-U__SSE3__', '-U__SSE4_1__', '-U__SSE4_2__'])
c('sse1fast', 'gcc', C['sse1']['flags'] + ['-D__FAST_MATH__'])
c('avxun', 'gcc', GO + ['-mavx', '-DCGLM_ALL_UNALIGNED'], cpu=('avx',))
c('debug', 'gcc', GO + ['-DDEBUG', '-D_DEBUG', '-DCGLM_NO_PRINTS_NOOP'])
c('epsdef', 'gcc', GO + ['-DCGLM_USE_DEFAULT_EPSILON'])
c('epsuser', 'gcc', GO + ['-DGLM_FLT_EPSILON=1e-3f'])
c('sepinc', 'gcc', GO + ['-DVF_SEPINC'])          # no CGLM_CLIPSPACE_INCLUDE_ALL, the clipspace headers one by one, struct and call headers first
c('lh_zo_sepinc', 'gcc', GO + ['-DVF_SEPINC'], 3)
CORNERS = dict(LBN=(-1, -1, 1), LTN=(-1, 1, 1), RTN=(1, 1, 1), RBN=(1, -1, 1), LBF=(-1, -1, 0), LTF=(-1, 1, 0), RTF=(1, 1, 0), RBF=(1, -1, 0)) # reversed depth, 1 near and 0 far
c('corners', 'gcc', GO + ['-DGLM_CUSTOM_CLIPSPACE'] + ['-D%s_CSCOORD_%s={%d.0f,%d.0f,%d.0f,1.0f}' % ((k, n) + v) for k in ('GLM', 'GLMS') for n, v in CORNERS.items()])
ASAN3 = ['asan', 'asanscalar', 'asanavx']
SIMD = ['sse2', 'sse1', 'scalar', 'sse3dot', 'sse4dot', 'avx', 'avx2fma', 'sse2u', 'avxu', 'noint', 'clang', 'neon', 'neon64', 'wasm']
ALL = list(C)
