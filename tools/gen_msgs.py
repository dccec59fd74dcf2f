#!/usr/bin/env python3
"""Generates C++ headers and Python classes from the .msg/.srv files of /repo (a small stand-in for genmsg)."""
import os, re, sys

PRIM = {'bool': ('uint8_t', 'False'), 'int8': ('int8_t', '0'), 'uint8': ('uint8_t', '0'), 'int16': ('int16_t', '0'),
        'uint16': ('uint16_t', '0'), 'int32': ('int32_t', '0'), 'uint32': ('uint32_t', '0'), 'int64': ('int64_t', '0'),
        'uint64': ('uint64_t', '0'), 'float32': ('float', '0.'), 'float64': ('double', '0.'),
        'string': ('std::string', "''"), 'time': ('ros::Time', 'None'), 'duration': ('ros::Duration', 'None')}

def parse(text):
    fields, consts = [], []
    for line in text.splitlines():
        m = re.match(r'\s*string\s+(\w+)\s*=(.*)$', line)
        if m:
            consts.append(('string', m.group(1), m.group(2).strip())); continue
        line = line.split('#', 1)[0].strip()
        if not line:
            continue
        m = re.match(r'(\S+)\s+(\w+)\s*=\s*(\S+)$', line)
        if m:
            consts.append(m.groups()); continue
        t, n = line.split()
        arr = t.endswith(']')
        fields.append((re.sub(r'\[\d*\]$', '', t), arr, n))
    return fields, consts

def cpp_struct(pkg, name, fields, consts):
    o = ['template <class A> struct %s_ {' % name]
    for t, arr, n in fields:
        if t in PRIM:
            c = PRIM[t][0]
        elif t in ('Header', 'std_msgs/Header'):
            c = 'std_msgs_stub_Header'
        else:
            p, b = t.split('/') if '/' in t else (pkg, t)
            c = '::%s::%s' % (p, b)
        o.append('  %s %s%s;' % ('std::vector<%s>' % c if arr else c, n, '' if arr or t not in PRIM or t in ('string', 'time', 'duration') else ' = 0'))
    ints = [(n, v) for t, n, v in consts if t != 'string']
    if ints:
        o.append('  enum { %s };' % ', '.join('%s = %s' % x for x in ints))
    o.append('  typedef std::shared_ptr<%s_> Ptr;' % name)
    o.append('};')
    o.append('typedef %s_<void> %s;' % (name, name))
    return '\n'.join(o)

def includes(pkg, fields):
    r = []
    for t, arr, n in fields:
        if t not in PRIM and t not in ('Header', 'std_msgs/Header'):
            p, b = t.split('/') if '/' in t else (pkg, t)
            r.append('#include "%s/%s.h"' % (p, b))
    return r

PRE = '#pragma once\n#include <string>\n#include <vector>\n#include <memory>\n#include <cstdint>\n#include "ros/time.h"\n#ifndef STD_MSGS_STUB_HEADER\n#define STD_MSGS_STUB_HEADER\nstruct std_msgs_stub_Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; };\n#endif\n'

def py_class(name, fields, consts):
    o = ['class %s(object):' % name, "    __slots__ = [%s]" % ', '.join(repr(n) for _, _, n in fields)]
    for t, n, v in consts:
        o.append('    %s = %s' % (n, repr(v) if t == 'string' else v))
    o.append('    def __init__(self, *args, **kwds):')
    o.append('        if args and kwds: raise TypeError("either args or kwds")')
    o.append('        if args and len(args) != %d: raise TypeError("Invalid number of arguments, args should be %s args are " + str(args))' % (len(fields), [n for _, _, n in fields]))
    o.append('        for k in kwds:')
    o.append('            if k not in self.__slots__: raise AttributeError(k)')
    for i, (t, arr, n) in enumerate(fields):
        d = '[]' if arr else (PRIM[t][1] if t in PRIM else 'None')
        o.append('        self.%s = args[%d] if args else kwds.get(%r, %s)' % (n, i, n, d))
        o.append('        if self.%s is None: self.%s = %s' % (n, n, d))
    o.append('    def __eq__(self, o): return type(self) is type(o) and all(getattr(self, s) == getattr(o, s) for s in self.__slots__)')
    o.append('    def __ne__(self, o): return not self == o')
    o.append('    __hash__ = None')
    o.append('    def __repr__(self): return %r + repr(tuple(getattr(self, s) for s in self.__slots__))' % name)
    return '\n'.join(o)

def main(repo, out_cpp, out_py):
    pkg = 'controller_manager_msgs'
    base = os.path.join(repo, pkg)
    py_msg, py_srv = ['# generated'], ['# generated', 'from .msg import *']
    if out_cpp:
        os.makedirs(os.path.join(out_cpp, pkg), exist_ok=True)
    for f in sorted(os.listdir(os.path.join(base, 'msg'))):
        if not f.endswith('.msg'): continue
        n = f[:-4]
        fl, co = parse(open(os.path.join(base, 'msg', f)).read())
        if out_cpp:
            open(os.path.join(out_cpp, pkg, n + '.h'), 'w').write(PRE + '\n'.join(includes(pkg, fl)) + '\nnamespace %s {\n%s\n}\n' % (pkg, cpp_struct(pkg, n, fl, co)))
        py_msg.append(py_class(n, fl, co))
    for f in sorted(os.listdir(os.path.join(base, 'srv'))):
        if not f.endswith('.srv'): continue
        n = f[:-4]
        req, res = re.split(r'^---\s*$', open(os.path.join(base, 'srv', f)).read(), maxsplit=1, flags=re.M)
        (qf, qc), (rf, rc) = parse(req), parse(res)
        if out_cpp:
            inc = '\n'.join(includes(pkg, qf) + includes(pkg, rf))
            open(os.path.join(out_cpp, pkg, n + 'Request.h'), 'w').write(PRE + inc + '\nnamespace %s {\n%s\n}\n' % (pkg, cpp_struct(pkg, n + 'Request', qf, qc)))
            open(os.path.join(out_cpp, pkg, n + 'Response.h'), 'w').write(PRE + inc + '\nnamespace %s {\n%s\n}\n' % (pkg, cpp_struct(pkg, n + 'Response', rf, rc)))
            open(os.path.join(out_cpp, pkg, n + '.h'), 'w').write('#pragma once\n#include "%s/%sRequest.h"\n#include "%s/%sResponse.h"\nnamespace %s { struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; }; }\n' % (pkg, n, pkg, n, pkg, n, n, n))
        py_srv.append(py_class(n + 'Request', qf, qc))
        py_srv.append(py_class(n + 'Response', rf, rc))
        py_srv.append("class %s(object):\n    _type = '%s/%s'\n    _request_class = %sRequest\n    _response_class = %sResponse" % (n, pkg, n, n, n))
    if out_py:
        d = os.path.join(out_py, pkg)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'msg.py'), 'w').write('\n'.join(py_msg) + '\n')
        open(os.path.join(d, 'srv.py'), 'w').write('\n'.join(py_srv) + '\n')
        # the package itself also holds the module under test
        open(os.path.join(d, '__init__.py'), 'w').write('__path__.append(%r)\n' % os.path.join(base, 'src', pkg))

if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2] or None, sys.argv[3] or None)
