"""Writes a stand-in <dir>/tracing_schema.h from a tracing_schema.fbs: the enums
with flatc's naming (Enum_Value) and an empty struct per table."""
import re, sys
src, out, guard, ns = sys.argv[1:5]
t = re.sub(r'//[^\n]*', '', open(src).read())
o = ['#ifndef %s' % guard, '#define %s' % guard, '#include "fcp/tracing/tracing_span.h"', '#include <cstdint>']
body = []
for m in re.finditer(r'\benum\s+(\w+)\s*:\s*\w+\s*\{([^}]*)\}|\btable\s+(\w+)', t):
    if m.group(1):
        vals = [v.strip() for v in m.group(2).split(',') if v.strip()]
        body.append('enum %s : int16_t { %s };' % (m.group(1), ', '.join('%s_%s' % (m.group(1), v) for v in vals)))
    else:
        body.append('struct %s {};' % m.group(3))
if ns: o.append('namespace %s {' % ns)
o += body
if ns: o.append('}')
o.append('#endif')
open(out, 'w').write('\n'.join(o) + '\n')
