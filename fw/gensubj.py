"""Emit the C source of a subject library: uniform wrappers around the public API."""
import json, os, re
import extras
HERE = os.path.dirname(os.path.abspath(__file__))
def plain(): return {x['name']: x for x in json.load(open(os.path.join(HERE, 'functions.json')))}
def table(): return dict(plain(), **extras.ROWS)
ROLE = {'i': 'i', 'o': 'o', 'io': 'b'}
def basetype(t):
    t = t.replace('const', '').replace('*', '').replace('[]', '').strip()
    return re.sub(r'\[\d+\]$', '', t)
def emit(names, cfgname, clip, apis=('inl', 'call', 'str'), extra='', sname=None):
    T = table(); o = []
    rename = (lambda t: re.sub(r'\bglms_(\w+)\(', lambda m: sname(m.group(1)) + '(', t)) if sname else (lambda t: t)
    clipspace = lambda d: ''.join('#include <cglm/%sclipspace/%s.h>\n' % (d, h) for h in [a + '_' + b + '_' + z for a in ('ortho', 'persp', 'view') for b in ('lh', 'rh') for z in ('no', 'zo')] + ['project_no', 'project_zo'])
    sep = cfgname.endswith('sepinc'); inc = ['#include <cglm/cglm.h>\n']
    if 'str' in apis: inc.append('#include <cglm/struct.h>\n#include <cglm/struct/aabb2d.h>\n')
    if 'call' in apis: inc.append('#include <cglm/call.h>\n')
    if sep: inc.reverse()
    o.append(('' if sep else '#define CGLM_CLIPSPACE_INCLUDE_ALL\n') + '#ifndef VF_NOPRINT\n#define CGLM_DEFINE_PRINTS\n#endif\n#include <stdlib.h>\n#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <string.h>\n')
    o += inc; o.append('#include <cglm/handed/euler_to_quat_lh.h>\n#include <cglm/handed/euler_to_quat_rh.h>\n')
    if sep: o.append(clipspace(''))
    if 'str' in apis: o.append('#include <cglm/struct/handed/euler_to_quat_lh.h>\n#include <cglm/struct/handed/euler_to_quat_rh.h>\n' + (clipspace('struct/') if sep else ''))
    if 'call' in apis: o.append(clipspace('call/'))
    o.append('#include "%s/subject.h"\n' % HERE)
    # with CGLM_ALL_UNALIGNED nothing beyond the alignment of a float is required
    o.append('#ifdef CGLM_ALL_UNALIGNED\n#define VF_ALIGN(T) 4\n#else\n#define VF_ALIGN(T) (int)__alignof__(T)\n#endif\n')
    rows = []
    for n in names:
        x = T[n]; w = {}
        if x.get('need') == 'str' and 'str' not in apis: continue
        if 'inl' in apis:
            w['inl'] = 'i_' + n
            o.append('static void i_%s(void**A,void*R){(void)A;(void)R;%s%s;}\n' % (n, x.get('pre', ''), rename(x['inl'])))
        if 'call' in apis and x['call']:
            w['call'] = 'c_' + n
            o.append('static void c_%s(void**A,void*R){(void)A;(void)R;%s%s;}\n' % (n, x.get('pre', ''), x.get('calltext') or x['inl'].replace('glm_' + n + '(', 'glmc_' + n + '(')))
        if 'str' in apis and x['str']:
            w['str'] = 's_' + n
            s = x['str']
            s = rename(s)
            o.append('static void s_%s(void**A,void*R){(void)A;(void)R;%s}\n' % (n, s))
        if x['args']:
            o.append('static const vf_arg a_%s[]={%s};\n' % (n, ','.join('{\'%s\',\'%s\',%d,%s,"%s","%s"}' % (
                a['k'], ROLE[a['role']], a['len'], '(VF_ALIGN(%s))' % basetype(a['t']) if a['k'] in 'fi' else '4', a['n'], a['t']) for a in x['args'])))
        rows.append('{"%s",\'%s\',%d,%s,%s,%s,%s}' % (n, x['ret'], len(x['args']), 'a_' + n if x['args'] else '0', w.get('inl', '0'), w.get('call', '0'), w.get('str', '0')))
    o.append(extra)
    o.append('#ifdef __cplusplus\n#define VF_PUB extern "C" __attribute__((visibility("default")))\n#else\n#define VF_PUB __attribute__((visibility("default")))\n#endif\n')
    o.append('VF_PUB const vf_fn vf_table[]={%s};\nVF_PUB int vf_count=%d;\nVF_PUB const char*vf_cfg="%s";\nVF_PUB int vf_clip=%d;\n' % (',\n'.join(rows) or '{0}', len(rows), cfgname, clip))
    return ''.join(o)
