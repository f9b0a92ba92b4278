"""C16: JSON output. Every document up to the bound (content, characters, names, page selections) is converted, the output is read by an
independent parser and compared with the items the interpreter delivers."""
from mc import conv

ID = 'C16'
LEVEL = 'model_checking'
FMT = 'json'
ASSUMPTIONS = ['codecs that agree with ASCII', 'the items delivered by the interpreter are the reference (what they must be is decided by C08-C15)']
CASE_CPU_S = 60
run_case = conv.run_case
finding_key = conv.finding_key
BOUNDS = conv.describe


def jobs(tier):
    return conv.jobs(FMT, tier)


def explore(job, ctx):
    conv.explore(FMT, job, ctx)
