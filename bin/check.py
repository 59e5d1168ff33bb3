#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import c_lex, c_streams as cs, c_atn, c_parse as cp, c_threads as ct, c_use, c_names

CHECKS = dict(C01=c_lex.c01, C02=c_lex.c02, C03=c_lex.c03, C04=c_lex.c04, C05=c_lex.c05, C25=c_lex.c25,
              C06=cs.c06, C07=cs.c07, C08=cs.c08, C09=cs.c09, C10=c_atn.c10,
              C11=cp.c11, C12=cp.c12, C13=cp.c13, C14=cp.c14, C15=cp.c15, C16=ct.c16, C17=cp.c17, C18=cp.c18, C19=cp.c19,
              C20=cp.c20, C21=cp.c21, C22=cp.c22, C23=cp.c23, C24=cp.c24, C26=cp.c26, C27=cp.c27, C28=cp.c28, C29=c_use.c29, C30=c_names.c30)


def main():
    pid = sys.argv[1]
    if pid == '--build':
        build()
        return 0
    ck = Check(pid)
    try:
        CHECKS[pid](ck)
        return ck.finish()
    except ToolError as e:
        print('TOOL ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
