"""known_findings.json: findings recorded but not repaired, and the repairs made."""
import json, os, subprocess
FIXED = """
130c03b C03 the value of a relative operand was reduced to 16 bits by a loop that ran (almost) forever for large values
48af418 C02 an operand n,PCR whose offset was computed for address 0 was treated as having no offset
e462932 C02 ,W with no offset was assembled as an offset form
aa1a62f C04 TFR/EXG accepted registers that have no inter-register code and emitted a wrong or out-of-range nibble
f1ea8da C08 operands not usable as a value (registers, strings, lists) were silently taken as 0
fd5531e C06 modulo by zero crashed the assembler; shift counts outside 0..63 had undefined results
5ca2d0e C06 division by zero silently yielded an infinite or undefined value
4c4f563 C06 strings were not taken as integers by operators other than comparison
b1b1d05 C06 operators applied to unusable kinds silently yielded nothing
bab715a C18 values that cannot be pasted or exported were dropped silently
da8c6cb C25 character values above 127 were sign-extended
efada10 C24 the --setdp value was misread
d3258aa C24 the --max-passes argument was not validated
824ac29 C24 malformed numbers in option arguments were accepted
ca31438 C09 failure to open or write an output file left exit status 0
2c2bd7d C09 exporting an undefined symbol left exit status 0
e05cdf7 C10 a load address that still changed between passes was taken as settled
89a356a C10 the recorded severity depended on the order of diagnostics, ending the passes early
91b7769 C21 bytes assembled after PUT were not listed
afe713e C18 a macro unfinished at the end of a file crashed or leaked into the next one
b8ccf47 C22 writing the symbols file crashed without symbols
1c3ed0f C22 the internal symbol .exec was written to the symbols file
c211db2 C17 a second ELSE in an IF switched assembly back on
d768578 C15 addresses and counts beyond the 64 KiB memory wrapped silently or exhausted memory
c7658ff C16 a failure to read an INCLUDEBIN file was ignored
ecb5fe1 C26 an END operand that is not an integer was misinterpreted as an execution address
511af82 C26 the END address was not tracked between passes and could be stale
7c2da5d C07 relational operators had the precedence of equality
3e1135e C25 parser failure was not reported
c9ca04c C22 some operators were exported wrongly or not at all
1b90894 C22 strings with delimiters or line ends were exported unescaped
d4bf0fc C04 numeric register operands were truncated before being checked
27658fd C04 numeric register operands of bit operations were not accepted as documented
aa0e00e C15 data of sections not used in the final pass were still written
b2f6102 C09 an assembly that failed only because sections did not settle gave no message
2e8d4c2 C07 "/" after "*" and strings after "/" were misread
294fac9 C07 "%" after an operand was read as a binary number
d93ca44 C07 doubled signs were rejected
5b755ca C18 positional variables in the instruction field were not expanded
ecf7615 C10 local labels that appear or vanish in a pass were taken as settled
f877b7e C10 symbols first defined in a later pass were taken as settled
2017f1a C16 floating point values outside 32 bits in FCB gave undefined bytes
d187ec4 C22 exported floating point numbers did not read back as the same value
ec40eff C22 exported positional variables after "&" read back differently
2e158ae C23 an expression of some ten thousand nested operators exhausted the stack
"""
fixed = []
for l in FIXED.strip().split('\n'):
    c, p, what = l.split(' ', 2)
    subprocess.run(['git', '-C', '/repo', 'cat-file', '-e', c], check=True)
    fixed.append('fixed: property=%s %s %s' % (p, c, what))
json.dump({'findings': [], 'fixed': fixed}, open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
