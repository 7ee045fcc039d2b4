"""Rewrites section 4 of DESIGN.md from the docstrings of units and refuters."""
import ast
import json
import pathlib
import textwrap

V = pathlib.Path(__file__).resolve().parent.parent


def doc(f):
    return ast.get_docstring(ast.parse((V / f).read_text())) or ''


out = []
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    u = doc(f'units/{i.lower()}.py')
    first, _, rest = u.partition('\n')
    if first.startswith(i):
        u = rest.strip('\n') or first.split(': ', 1)[-1]
    out.append(f"### {i} {p['title']}\n\n"
               + textwrap.indent(u.strip('\n'), '    ') + '\n\n*Refuter:* '
               + textwrap.fill(' '.join(doc(f'refute/{i.lower()}.py')
                                        .split()), 78) + '\n')
d = V / 'DESIGN.md'
text = d.read_text()
head, mid = text.split('<!-- properties -->\n')[0:2]
tail = mid.split('<!-- end -->\n', 1)[1]
d.write_text(head + '<!-- properties -->\n' + '\n'.join(out)
             + '<!-- end -->\n' + tail)
