T = 'contract-based deductive verification (Verus/Z3 on the functions extracted from the current tree)'
S = '; a seeded concrete search on the real crate supplies failing inputs and judges functions whose proof no longer applies'
P = 'every function of the property and its callees under contract; all obligations discharged for all inputs' + S
def part(done, rest): return 'discharged for all inputs: ' + done + '; bounded stand-in (seeded concrete inputs against Python integers) for: ' + rest
B = 'bounded stand-in: seeded boundary-heavy concrete inputs on the real crate against Python integers; nothing proved yet'
LEVELS = {'C%02d' % k: ('exploration', 'bounded stand-in (contract not yet discharged)', B) for k in range(1, 26)}
for k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C25'): LEVELS[k] = ('proof', T, P)
def mixed(k, done, rest): LEVELS[k] = ('exploration', T + ', with a bounded stand-in for the functions not under contract', part(done, rest))
NA = {'C23': 'Float: no contract of the rounding code is within reach here (floating decimal/binary rounding over private mantissa helpers); the code also has known defects in special cases',
      'C24': 'Float special values and decimal text conversion: as C23, plus floating-point primitives and string formatting outside the verifier'}
