PROPERTY = "C11"
NEEDS = "a cause whose states are boolean-like text labels with index 1 and 2 listed as true first or second, in upper case"
BREAKS = "label-inferred true/false states are taken in domain order for labels numbered 1 and 2"
EDITS = [("bcause/util/domainutils.py", """        tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]""",
          """        tf = [d for d in dom if d.lower() in [varname.lower()+"1", varname.lower()+"2"]] + [d for d in dom if d.lower() == varname.lower()+"0"]""")]
DEMO = '''
from bcause.util.domainutils import identify_true_false
assert identify_true_false("X", ["x1", "x2"]) == ("x1", "x2")
assert identify_true_false("X", ["x0", "x1"]) == ("x1", "x0")
assert identify_true_false("X", ["x2", "x1"]) == ("x1", "x2"), identify_true_false("X", ["x2", "x1"])
'''
