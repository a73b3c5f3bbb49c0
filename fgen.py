"""The Fortran side of the library, as C: gfortran's GENERIC dump of fort.F90 and of a
subroutine that stores every PARAMETER of mpif.h, rewritten token by token.  Regenerated
from the current tree on every run; None when the dump uses something not handled here."""
import os, re, glob

TYPES = {'integer(kind=4)': 'int', 'logical(kind=4)': 'int', 'real(kind=4)': 'float', 'real(kind=8)': 'double',
         'real(kind=16)': 'f16_t', 'complex(kind=4)': 'c4_t', 'complex(kind=8)': 'c8_t', 'integer(kind=8)': 'long',
         'complex(kind=16)': 'c16_t'}


def dump(repo, work, must, src, tag):
    must(['gfortran', '-fdump-tree-original', '-ffree-form', '-DHAVE_CONFIG_H', '-I' + repo, '-c', src,
          '-o', os.path.join(work, tag + '.o'), '-dumpdir', os.path.join(work, tag + '_')])
    f = glob.glob(os.path.join(work, tag + '_*original'))
    return open(f[0]).read()


def to_c(text):
    text = re.sub(r'__attribute__\s*\(\(fn spec \(".*?"\)\)\)', '', text)
    commons, out = {}, []
    for m in re.finditer(r'^\s*static\s+(\S+)\s+(\w+)((?:\[\d+\])*)\s*\[value-expr: (\w+)\.\w+\];', text, re.M):
        commons[m.group(2)] = '%s common_%s%s;' % (TYPES[m.group(1)], m.group(2), m.group(3))
    text = re.sub(r'^\s*static\s+\S+\s+\w+(?:\[\d+\])*\s*\[value-expr: [^\]]*\];\n', '', text, flags=re.M)
    for n in commons:
        text = re.sub(r'\b%s\b' % n, 'common_' + n, text)
    for k in sorted(TYPES, key=len, reverse=True):
        text = text.replace(k, TYPES[k])
    text = re.sub(r'\b([CD])\.(\d+)\b', r'\1_\2', text)
    text = re.sub(r'& restrict', '*', text)
    text = re.sub(r'&&\s*', '&', text)
    text = re.sub(r'\b(mpi_\w+) \(', r'\1_ (', text)
    text = re.sub(r'^(\s*)(\w+) D_(\d+);', r'\1\2 D_\3;', text, flags=re.M)
    names = sorted(set(re.findall(r'\b(mpi_\w+_) \(', text)))
    defined = set(re.findall(r'^void (\w+) \(', text, re.M))
    head = ['typedef struct { float r, i; } c4_t; typedef struct { double r, i; } c8_t;',
            'typedef struct { char b[16]; } f16_t; typedef struct { char b[32]; } c16_t;']
    head += ['extern %s %s();' % ('void' if n in defined or n == 'mpi_save_fort_pointers_' else 'int', n) for n in names]
    return '\n'.join(head + sorted(commons.values())) + '\n' + text


def generate(repo, work, must):
    try:
        names, seen = [], set()
        for f in ('mpif.h',):
            for m in re.finditer(r'^\s*parameter\s*\(\s*(\w+)\s*=', open(os.path.join(repo, f)).read(), re.M | re.I):
                n = m.group(1).upper()
                if n not in seen and n not in ('MPI_OFFSET_KIND', 'MPI_ADDRESS_KIND'):
                    seen.add(n)
                    names.append(n)
        src = os.path.join(work, 'consts.F90')
        with open(src, 'w') as g:
            g.write('subroutine mpi_sxconsts(a)\nimplicit none\ninclude "mpif.h"\ninteger a(%d)\n' % len(names))
            for i, n in enumerate(names):
                g.write('a(%d) = %s\n' % (i + 1, n))
            g.write('end subroutine\n')
        consts = to_c(dump(repo, work, must, src, 'consts'))
        fort = to_c(dump(repo, work, must, os.path.join(repo, 'fort.F90'), 'fort'))
        hdr = os.path.join(work, 'fort_gen.h')
        consts = re.sub(r'\(\*a\)', 'a', consts)
        consts = re.sub(r'int\[\d+\] \*( restrict)? ?a\b', 'int *a', consts)
        with open(hdr, 'w') as g:
            g.write('#include "mpi.h"\n#include <string.h>\n' + fort + '\n')
            g.write(consts[consts.index('void mpi_sxconsts_ ('):] + '\n')
            g.write('#define NCONST %d\nstatic struct { int k; long c; } const_tab[] = {\n' % len(names))
            for i, n in enumerate(names):
                g.write('#ifdef %s\n{%d, (long)(%s)},\n#endif\n' % (n, i, n))
            g.write('};\n')
        # the header must compile, else this configuration is outside what the translation handles
        must(['clang', '-w', '-fsyntax-only', '-x', 'c', '-I' + repo, hdr])
        return ['-include', hdr]
    except Exception as e:
        print('fort.F90 not translated:', str(e)[-600:])
        return None
