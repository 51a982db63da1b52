"""Rows for things that are not plain functions: struct member views, pack/unpack, printing, constants."""
ROWS = {}
def A(t, n, k, l, role): return dict(t=t, n=n, k=k, len=l, role=role)
def row(name, ret, args, inl, call=0, str=None, need='', calltext=None): ROWS[name] = dict(name=name, ret=ret, args=args, inl=inl, call=call, str=str, need=need, calltext=calltext)
AN = '\n#if CGLM_USE_ANONYMOUS_STRUCT\n'; EN = '\n#endif\n'
def view(T, raw, base, n, vname, names, anon=True):
    """raw storage written, read through the named view, and the other way round"""
    k = 'f' if base == 'float' else 'i'
    c = '%s s_,q_;memset(&s_,0,sizeof s_);memset(&q_,0,sizeof q_);memcpy(s_.raw,A[0],%d);' % (T, 4 * n)
    body = ''.join('((%s*)A[1])[%d]=s_.%s;q_.%s=((%s*)A[0])[%d];' % (base, i, m, m, base, i) for i, m in enumerate(names))
    fall = 'memcpy(A[1],A[0],%d);memcpy(q_.raw,A[0],%d);' % (4 * n, 4 * n)
    c += (AN + body + '\n#else\n' + fall + EN) if anon else body
    c += 'memcpy(A[2],q_.raw,%d);*(int*)R=(int)sizeof(%s)+(__alignof__(%s)==__alignof__(%s)?0:100000)+(sizeof(%s)==sizeof(%s)?0:200000)' % (4 * n, T, T, raw, T, raw)
    row('view_%s_%s' % (T, vname), 'I', [A(base + '*', 'raw', k, n, 'i'), A(base + '*', 'named', k, n, 'o'), A(base + '*', 'back', k, n, 'o')], c, need='str')
for pre, base in (('', 'float'), ('i', 'int')):
    for v in ('xy', 'ri', 'uv', 'st'): view(pre + 'vec2s', pre + 'vec2', base, 2, v, list(v))
    for v in ('xyz', 'rgb'): view(pre + 'vec3s', pre + 'vec3', base, 3, v, list(v))
    for v in ('xyzw', 'rgba'): view(pre + 'vec4s', pre + 'vec4', base, 4, v, list(v))
view('versors', 'versor', 'float', 4, 'xyzw', list('xyzw'))
view('versors', 'versor', 'float', 4, 'imagreal', ['imag.raw[0]', 'imag.raw[1]', 'imag.raw[2]', 'real'])
view('versors', 'versor', 'float', 4, 'imagxyz', ['imag.x', 'imag.y', 'imag.z', 'real'])
for c in (2, 3, 4):
    for r in (2, 3, 4):
        t = 'mat%d' % c if c == r else 'mat%dx%d' % (c, r)
        view(t + 's', t, 'float', c * r, 'col', ['col[%d].raw[%d]' % (i, j) for i in range(c) for j in range(r)], anon=False)
        view(t + 's', t, 'float', c * r, 'm', ['m%d%d' % (i, j) for i in range(c) for j in range(r)])
PACK = 5
for t, base, n in (('vec2', 'float', 2), ('vec3', 'float', 3), ('vec4', 'float', 4), ('ivec2', 'int', 2), ('ivec3', 'int', 3), ('ivec4', 'int', 4)):
    k = 'f' if base == 'float' else 'i'
    args = [A('%s[%d]' % (t, PACK), 'dst', k, n * PACK, 'io'), A('%s[%d]' % (t, PACK), 'src', k, n * PACK, 'i'), A('size_t', 'len', 'I', 1, 'i')]
    row(t + '_pack', 'v', args, 'glms_%s_pack((%ss*)A[0],(%s*)A[1],(size_t)*(int*)A[2])' % (t, t, t), need='str')
    row(t + '_unpack', 'v', args, 'glms_%s_unpack((%s*)A[0],(%ss*)A[1],(size_t)*(int*)A[2])' % (t, t, t), need='str')
row('vec2_of_vec3s', 'v', [A('vec3', 'v3', 'f', 3, 'i'), A('vec2', 'dest', 'f', 2, 'o')], 'vec3s s0;memcpy(&s0,A[0],sizeof s0);vec2s r=glms_vec2(s0);memcpy(A[1],&r,sizeof r)', need='str')

# printing: the text is captured through an in-memory stream into an int array (4 characters per int)
TXT = 512
OPEN = 'char*b_=0;size_t n_=0;FILE*o_=open_memstream(&b_,&n_);'
CLOSE = 'fclose(o_);memset(A[1],0,%d);if(n_>%d)n_=%d;memcpy(A[1],b_,n_);free(b_);*(int*)R=(int)n_' % (4 * TXT, 4 * TXT, 4 * TXT)
for t, base, n, call, st in (('mat4', 'float', 16, 1, 'mat4s'), ('mat3', 'float', 9, 1, 'mat3s'), ('mat2', 'float', 4, 0, None), ('vec4', 'float', 4, 1, 'vec4s'), ('vec3', 'float', 3, 1, 'vec3s'), ('vec2', 'float', 2, 0, 'vec2s'),
                             ('ivec4', 'int', 4, 0, 'ivec4s'), ('ivec3', 'int', 3, 0, 'ivec3s'), ('ivec2', 'int', 2, 0, 'ivec2s'), ('versor', 'float', 4, 1, 'versors')):
    row(t + '_print', 'I', [A(t, 'v', 'f' if base == 'float' else 'i', n, 'i'), A('int*', 'text', 'i', TXT, 'o')],
        OPEN + 'glm_%s_print(*(%s*)A[0],o_);' % (t, t) + CLOSE, call,
        OPEN + '%s s0;memcpy(&s0,A[0],sizeof s0);glms_%s_print(s0,o_);' % (st, t) + CLOSE + ';' if st else None, need='io',
        calltext=OPEN + 'glmc_%s_print(*(%s*)A[0],o_);' % (t, t) + CLOSE)
TAG = 'static const char*T_[]={0,"","box","a % tag","100%d"};const char*t_=T_[(unsigned)*(int*)A[2]%5];'
row('aabb_print', 'I', [A('vec3[2]', 'box', 'f', 6, 'i'), A('int*', 'text', 'i', TXT, 'o'), A('int', 'tag', 'I', 1, 'i')], TAG + OPEN + 'glm_aabb_print((vec3*)A[0],t_,o_);' + CLOSE, 0,
    TAG + OPEN + 'vec3s s0[2];memcpy(s0,A[0],sizeof s0);glms_aabb_print(s0,t_,o_);' + CLOSE + ';', need='io')
row('arch_print', 'I', [A('int', 'unused', 'I', 1, 'i'), A('int*', 'text', 'i', TXT, 'o')], OPEN + 'glm_arch_print(o_);' + CLOSE, need='io')
row('arch_print_name', 'I', [A('int', 'unused', 'I', 1, 'i'), A('int*', 'text', 'i', TXT, 'o')], OPEN + 'glm_arch_print_name(o_);' + CLOSE, need='io')

# named constants, ready-made values, masks, older names (X06)
K = {}   # name -> (C expression, kind)
def crow(name, decls, expr, base, n, st=None, two=None):
    """decls: how to obtain an array `k_` of n elements from a generated situation; two ways, which must agree"""
    k = 'f' if base == 'float' else 'i'
    row('const_' + name, 'v', [A('int', 'way', 'I', 1, 'i'), A(base + '*', 'value', k, n, 'o')], 'if(*(int*)A[0]&1){%s;memcpy(A[1],&k_,sizeof k_);}else{%s;}' % (decls, two or 'memcpy(A[1],&%s,sizeof(%s))' % (expr, expr)), 0,
        st, need='const')
def ready(name, t, base, n):
    T = t.upper(); nm = {'VERSOR': 'QUAT'}.get(T, T) + '_' + name
    crow(nm, '%s k_=GLM_%s_INIT' % (t, nm), 'GLM_' + nm, base, n,
         'if(*(int*)A[0]&1){%ss k_=GLMS_%s_INIT;memcpy(A[1],&k_,sizeof k_);}else{memcpy(A[1],&GLMS_%s,sizeof(%ss));}' % (t, nm, nm, t), '%s k_=GLM_%s;memcpy(A[1],&k_,sizeof k_)' % (t, nm) if 'x' in t else None)
for t, base, n in (('vec2', 'float', 2), ('vec3', 'float', 3), ('vec4', 'float', 4), ('ivec2', 'int', 2), ('ivec3', 'int', 3), ('ivec4', 'int', 4)): ready('ZERO', t, base, n); ready('ONE', t, base, n)
ready('BLACK', 'vec4', 'float', 4); ready('IDENTITY', 'versor', 'float', 4)
for c in (2, 3, 4):
    for r in (2, 3, 4):
        t = 'mat%d' % c if c == r else 'mat%dx%d' % (c, r)
        ready('ZERO', t, 'float', c * r)
        if c == r: ready('IDENTITY', t, 'float', c * r)
for nm in ('XUP', 'YUP', 'ZUP', 'FORWARD'): crow(nm, 'vec3 k_;glm_vec3_copy(GLM_%s,k_)' % nm, 'GLM_' + nm, 'float', 3, 'vec3s k_=GLMS_%s;memcpy(A[1],&k_,sizeof k_);' % nm if nm != 'FORWARD' else None)
for nm in ('BEZIER_MAT', 'HERMITE_MAT'): crow(nm, 'mat4 k_=GLM_%s_INIT' % nm, 'GLM_' + nm, 'float', 16)
for nm in ('LBN', 'LTN', 'RTN', 'RBN', 'LBF', 'LTF', 'RTF', 'RBF'):
    row('const_CSCOORD_' + nm, 'I', [A('vec4', 'value', 'f', 4, 'o')], 'vec4 k_=GLM_CSCOORD_%s;memcpy(A[0],k_,16);*(int*)R=GLM_%s' % (nm, nm), 0, 'vec4s k_=GLMS_CSCOORD_%s;memcpy(A[0],&k_,16);*(int*)R=GLM_%s;' % (nm, nm), need='const')
for nm in ('LEFT', 'RIGHT', 'BOTTOM', 'TOP', 'NEAR', 'FAR'):
    row('const_PLANE_' + nm, 'I', [A('int', 'unused', 'I', 1, 'i')], '*(int*)R=GLM_' + nm, need='const')
NUM = ['E', 'LOG2E', 'LOG10E', 'LN2', 'LN10', 'PI', 'PI_2', 'PI_4', '1_PI', '2_PI', 'TAU', 'TAU_2', 'TAU_4', '1_TAU', '2_TAU', '2_SQRTPI', 'SQRTTAU', 'SQRT2', 'SQRT1_2']
for nm in NUM:
    f = {'SQRTTAU': '2_SQRTTAU'}.get(nm, nm)
    extra = ',CGLM_%s' % nm if nm in ('PI', 'PI_2', 'PI_4') else ',GLM_%sf' % f
    # value as a double, its float companion, and the macro inside a larger expression (x * K, K - x, -K)
    row('const_NUM_' + nm, 'I', [A('float', 'x', 'F', 1, 'i'), A('int*', 'bits', 'i', 2, 'o'), A('float*', 'fl', 'f', 2, 'o'), A('float*', 'ex', 'f', 4, 'o')],
        'double d_=GLM_%s;float x_=*(float*)A[0];memcpy(A[1],&d_,8);float f_[2]={GLM_%sf%s};memcpy(A[2],f_,8);float e_[4]={x_*GLM_%sf,x_/GLM_%sf,GLM_%sf-x_,-GLM_%sf};memcpy(A[3],e_,16);*(int*)R=(sizeof(GLM_%s)==8)+2*(sizeof(GLM_%sf)==4)' % (nm, f, extra, f, f, f, f, nm, f), need='const')
row('const_MINMAX', 'v', [A('float', 'a', 'F', 1, 'i'), A('float', 'b', 'F', 1, 'i'), A('float*', 'r', 'f', 4, 'o')], 'float a=*(float*)A[0],b=*(float*)A[1];float e_[4]={GLM_MIN(a,b),GLM_MAX(a,b),2.0f*GLM_MIN(a,b),GLM_MAX(a,b)-1.0f};memcpy(A[2],e_,16)', need='const')
for nm in ('XXX', 'YYY', 'ZZZ', 'ZYX', 'XXXX', 'YYYY', 'ZZZZ', 'WWWW', 'WZYX'):
    n = len(nm)
    row('mask_' + nm, 'v', [A('vec%d' % n, 'v', 'f', n, 'i'), A('vec%d' % n, 'dest', 'f', n, 'o')], 'glm_vec%d_swizzle((float*)A[0],GLM_%s,(float*)A[1])' % (n, nm), 1, 'vec%ds s0;memcpy(&s0,A[0],sizeof s0);vec%ds r=glms_vec%d_swizzle(s0,GLM_%s);memcpy(A[1],&r,sizeof r);' % (n, n, n, nm), need='const', calltext='glmc_vec%d_swizzle((float*)A[0],GLM_%s,(float*)A[1])' % (n, nm))
for n in (2, 3, 4):
    idx = ','.join('((int*)A[1])[%d]&3' % (n - 1 - i) for i in range(n))
    row('mask_SHUFFLE%d' % n, 'v', [A('vec%d' % n, 'v', 'f', n, 'i'), A('int*', 'pick', 'i', n, 'i'), A('vec%d' % n, 'dest', 'f', n, 'o')], 'glm_vec%d_swizzle((float*)A[0],GLM_SHUFFLE%d(%s),(float*)A[2])' % (n, n, idx if n < 4 else idx), need='const')
def alias(name, ret, args, text, call=1, tag='', st=None, prefix='glm_'):
    row('alias_' + name + tag, ret, args, text % prefix, call, st, need='const', calltext=text % 'glmc_' if call else None)
V3 = lambda n, role='i': A('vec3', n, 'f', 3, role)
V4 = lambda n, role='i': A('vec4', n, 'f', 4, role)
alias('vec3_dup', 'v', [V3('v'), V3('dest', 'o')], '%svec3_dup((float*)A[0],(float*)A[1])', 0)
row('alias_vec_dup', 'v', [V3('v'), V3('dest', 'o')], 'glm_vec3_dup((float*)A[0],(float*)A[1])', 1, need='const', calltext='glmc_vec_dup((float*)A[0],(float*)A[1])')
for nm in ('flipsign', 'inv'):
    for n, V in ((3, V3), (4, V4)):
        alias('vec%d_%s' % (n, nm), 'v', [V('v', 'io')], '%%svec%d_%s((float*)A[0])' % (n, nm))
        alias('vec%d_%s_to' % (n, nm), 'v', [V('v'), V('dest', 'o')], '%%svec%d_%s_to((float*)A[0],(float*)A[1])' % (n, nm))
for n, V in ((3, V3), (4, V4)):
    alias('vec%d_mulv' % n, 'v', [V('a'), V('b'), V('dest', 'o')], '%%svec%d_mulv((float*)A[0],(float*)A[1],(float*)A[2])' % n, 0)
    alias('vec%d_step_uni' % n, 'v', [A('float', 'edge', 'F', 1, 'i'), V('x'), V('dest', 'o')], '%%svec%d_step_uni(*(float*)A[0],(float*)A[1],(float*)A[2])' % n, 1,
          st='vec%ds s1;memcpy(&s1,A[1],sizeof s1);vec%ds r=glms_vec%d_step_uni(*(float*)A[0],s1);memcpy(A[2],&r,sizeof r);' % (n, n, n))
alias('vec4_dup3', 'v', [V4('v'), V3('dest', 'o')], '%svec4_dup3((float*)A[0],(float*)A[1])'); alias('vec4_dup', 'v', [V4('v'), V4('dest', 'o')], '%svec4_dup((float*)A[0],(float*)A[1])')
M4 = lambda n, role='i': A('mat4', n, 'f', 16, role)
alias('mat4_dup', 'v', [M4('m'), M4('dest', 'o')], '%smat4_dup((vec4*)A[0],(vec4*)A[1])'); alias('mat4_udup', 'v', [M4('m'), M4('dest', 'o')], '%smat4_udup((vec4*)A[0],(vec4*)A[1])')
alias('mat3_dup', 'v', [A('mat3', 'm', 'f', 9, 'i'), A('mat3', 'dest', 'f', 9, 'o')], '%smat3_dup((vec3*)A[0],(vec3*)A[1])')
alias('mat4_inv_precise', 'v', [M4('m'), M4('dest', 'o'), M4('ref', 'o')], '%smat4_inv_precise((vec4*)A[0],(vec4*)A[1]);glm_mat4_inv((vec4*)A[0],(vec4*)A[2])', 0)
alias('aabb2d_size', 'F', [A('vec2[2]', 'aabb', 'f', 4, 'i')], '*(float*)R=%saabb2d_size((vec2*)A[0])')
row('const_CLIP', 'I', [A('int*', 'bits', 'i', 2, 'o')], 'int k_=CGLM_CONFIG_CLIP_CONTROL,v_[2]={!!(k_&CGLM_CLIP_CONTROL_LH_BIT)+2*!!(k_&CGLM_CLIP_CONTROL_RH_BIT),!!(k_&CGLM_CLIP_CONTROL_ZO_BIT)+2*!!(k_&CGLM_CLIP_CONTROL_NO_BIT)};memcpy(A[0],v_,8);*(int*)R=(k_==CGLM_CLIP_CONTROL_RH_NO)|2*(k_==CGLM_CLIP_CONTROL_RH_ZO)|4*(k_==CGLM_CLIP_CONTROL_LH_NO)|8*(k_==CGLM_CLIP_CONTROL_LH_ZO)', need='const')

# sizes and alignments of the array types (X08)
TYPES = ['vec2', 'vec3', 'vec4', 'ivec2', 'ivec3', 'ivec4', 'versor', 'mat2', 'mat3', 'mat4', 'mat2x3', 'mat2x4', 'mat3x2', 'mat3x4', 'mat4x2', 'mat4x3']
row('layout', 'v', [A('int', 'unused', 'I', 1, 'i'), A('int*', 'layout', 'i', 2 * len(TYPES), 'o')], 'int k_[]={%s};memcpy(A[1],k_,sizeof k_)' % ','.join('(int)sizeof(%s),(int)__alignof__(%s)' % (x, x) for x in TYPES), 0,
    'int k_[]={%s};memcpy(A[1],k_,sizeof k_);' % ','.join('(int)sizeof(%ss),(int)__alignof__(%ss)' % (x, x) if x != 'versor' else '(int)sizeof(versors),(int)__alignof__(versors)' for x in TYPES), need='layout')
