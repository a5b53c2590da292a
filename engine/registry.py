"""which theories decide which property"""
MODULES = {
 'C01': ['t_ops'],
 'C02': ['t_reord'],
 'C03': ['t_red'],
 'C04': ['t_lin'],
 'C10': ['t_lin', 't_ops', 't_reord', 't_red'],
 'C11': ['t_ops', 't_cache'],
 'C05': ['t_chain'],
 'C06': ['t_chain'],
 'C07': ['t_cache'],
 'C08': ['t_cache', 't_chain', 't_reord', 't_red', 't_lin'],
 'C09': ['t_cache'],
 'C20': ['t_chain'],
 'C15': ['t_minimize'],
 'C16': ['t_dogleg'],
 'C17': ['t_opt'],
 'C18': ['t_opt'],
 'C12': ['t_setitem'],
 'C13': ['t_graph'],
 'C14': ['t_graph'],
 'C19': ['t_graph'],
}
MODULES['C10'] += ['t_wrap']; MODULES['C05'] += ['t_wrap']; MODULES['C19'] += ['t_wrap']; MODULES['C21'] = ['t_wrap']
MODULES['C07'] += ['t_reord', 't_red', 't_lin', 't_wrap']
MODULES['C11'] += ['t_reord', 't_red', 't_lin', 't_wrap', 't_setitem', 't_chain']

# One run of a function discharges obligations of several properties (its value, its derivative, what it leaves alone).
# Each check counts those that express its own property.
import re
AFTER = ' after a change'
ARR = ('t_ops', 't_reord', 't_red', 't_lin', 't_wrap')
VALUE = re.compile(r"the value (has|is) (?!read-only|a float64)|numpy arrays give way|factor . is|the residuals are|the sign is numpy|the solution is")
FRAME = re.compile(r"read-only|cannot be written|float64 array|is written to|not altered|is not modified|are not modified|asking again returns the same")
JAC = re.compile(r"a Jacobian handed out")
def counts(prop, module, name):
    v, f, j = bool(VALUE.match(name)), bool(FRAME.search(name)), bool(JAC.match(name))
    if prop == 'C11': return f
    if module == 't_chain':
        if prop == 'C08': return f or 'asked again' in name
        if prop in ('C05', 'C06'): return 'storage if' not in name
    if module not in ARR: return True
    if prop == 'C10': return v
    if module == 't_wrap' and prop == 'C21': return not f and (not v or 'derives' in name)
    if module == 't_wrap' and prop in ('C05', 'C19'): return not (v or f)
    if prop == 'C04': return j or not f
    if prop in ('C01', 'C02', 'C03'): return j or not (v or f)
    if prop == 'C08': return j or (not v and not f and name.endswith(AFTER))
    if prop == 'C07': return v and name.endswith(AFTER)
    return True
def base_needed(prop, module, name):
    """staleness is a matter of what follows a change: an answer that was wrong before it is another property's business"""
    if prop == 'C08' and ', asked again' in name: return name.replace(', asked again', '')
    return name[:-len(AFTER)] if prop in ('C07', 'C08') and module in ARR and name.endswith(AFTER) else None
