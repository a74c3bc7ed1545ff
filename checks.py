"""What each check consists of."""


def fmt(kind, verdict, quick, thorough, **kw):
    return dict(kind=kind, module='TraceFormat', verdict=verdict, quick=quick, thorough=thorough, **kw)


def rd(kind, verdict, quick, thorough, **kw):
    return dict(kind=kind, module='TraceRead', verdict=verdict, quick=quick, thorough=thorough, **kw)


def sys_(kind, verdict, quick, thorough, **kw):
    return dict(kind=kind, module='TraceSys', verdict=verdict, quick=quick, thorough=thorough, **kw)


def cli(kind, verdict, quick, thorough, **kw):
    return dict(kind=kind, module='TraceCli', verdict=verdict, quick=quick, thorough=thorough, cljfmt=True, repeat=3, **kw)


PIPE = dict(module='MCPipe', cfg='MCPipe.cfg', cfg_thorough='MCPipe4.cfg')

CLI = dict(module='MCCli', cfg='MCCli.cfg', cfg_thorough='MCCli2.cfg')

READ = dict(module='MCRead', cfg='MCRead.cfg', cfg_thorough='MCReadT.cfg')


def frames(*names, **kw):
    return dict(module='MCFormat', frames=list(names), **kw)


TECH = 'TLA+ specification; TLC judges records of the real code (trace validation)'

CHECKS = {}


def check(pid, *parts, **kw):
    CHECKS[pid] = dict(parts=list(parts), technique=TECH, **kw)


check('C01', rd('read', 'TreeVerdict', 24000, 400000), models=[READ])
check('C02', rd('read', 'PositionVerdict', 24000, 400000), models=[READ])
check('C03', rd('read', 'ErrorVerdict', 24000, 400000), rd('opts', 'OptErrorVerdict', 10000, 150000), models=[PIPE])
check('C04', sys_('total', 'TotalVerdict', 60000, 2000000, crash_is='C04'), models=[PIPE])
check('C05', sys_('split', 'SplitVerdict', 24000, 400000), models=[PIPE])
check('C06', sys_('leak', 'LeakVerdict', 10000, 100000), models=[PIPE])
check('C07', sys_('con', 'ConVerdict', 2000, 30000, variant='race', crash_is='C07', repeat=20,
                  env=dict(GORACE='halt_on_error=1 exitcode=66')))
check('C08', rd('opts', 'OptVerdict', 14000, 300000), models=[READ])
check('C09', sys_('link', 'LinkVerdict', 14000, 200000),
      models=[dict(module='MCTreeApi', cfg='MCTreeApi.cfg', cfg_thorough='MCTreeApi4.cfg')])
check('C10', fmt('sem', 'SemVerdict', 14000, 200000),
      models=[frames('req', 'clause', 'pre', 'if')])
check('C11', fmt('sem', 'ComVerdict', 14000, 200000),
      models=[frames('req', 'clause', 'if', 'blank')])
check('C12', fmt('idem', 'IdemVerdict', 14000, 300000),
      models=[frames('def', 'defn', 'req', 'body')])
check('C13', fmt('layout', 'LayoutVerdict', 14000, 200000),
      models=[frames('list', 'body', invariant='LayoutGood')])
check('C14', fmt('over', 'OverVerdict', 14000, 200000),
      models=[frames('over', invariant='LayoutGood')])
check('C15', fmt('thread', 'ThreadVerdict', 14000, 200000),
      models=[frames('thread', invariant='LayoutGood')])
check('C16', fmt('tokens', 'TokensVerdict', 14000, 200000),
      models=[frames('pre', 'pair', 'body')])
check('C17', fmt('docs', 'DocVerdict', 14000, 200000),
      models=[frames('def')])
check('C18', fmt('sort', 'SortVerdict', 14000, 200000),
      models=[frames('req')])
check('C19', fmt('style', 'StyleVerdict', 14000, 200000),
      models=[frames('clause')])
check('C20', fmt('trailing', 'BlankVerdict', 10000, 150000), fmt('blank', 'BlankVerdict', 10000, 150000),
      models=[frames('blank')])
check('C21', fmt('defn', 'NewlinesVerdict', 6000, 100000), fmt('defmethod', 'NewlinesVerdict', 6000, 100000),
      fmt('if', 'NewlinesVerdict', 10000, 150000),
      models=[frames('defn', 'defm', 'if')])
check('C22', fmt('use', 'UseVerdict', 14000, 200000),
      models=[frames('use')])
check('C23', fmt('unused', 'UnusedVerdict', 14000, 200000),
      models=[frames('unused')])
check('C24', fmt('toggle', 'FullVerdict', 14000, 200000),
      models=[frames('req', 'clause', 'blank')])
check('C25', fmt('hist', 'HistVerdict', 5000, 60000))
check('C26', sys_('write', 'WriteVerdict', 5000, 60000), models=[dict(module='MCSink', cfg='MCSink.cfg')])
check('C27', cli('cli', 'Verdict27', 5000, 60000), models=[CLI])
check('C28', cli('clifail', 'Verdict28', 5000, 60000), models=[CLI])
check('C29', cli('clidir', 'Verdict29', 5000, 60000), models=[CLI])
check('C30', cli('cliconf', 'Verdict30', 5000, 60000))
check('C31', cli('cliflags', 'Verdict31', 5000, 60000))
check('C32', rd('file', 'FileVerdict', 8000, 100000))
TREES = dict(module='MCTrees', cfg='MCTrees.cfg', cfg_thorough='MCTrees2.cfg')
check('C33', rd('show', 'ShowVerdict', 14000, 200000), models=[TREES])
check('C34', fmt('edit', 'EditVerdict', 14000, 200000), models=[TREES])
check('C35', fmt('blanks', 'BlanksVerdict', 14000, 200000), models=[frames('body', 'pre', invariant='LayoutGood')])
check('C36', fmt('pieces', 'PiecesVerdict', 14000, 200000), models=[frames('def', 'list')])

NOTES = ('Every recorded run of the real code is judged by TLC against an executable TLA+ specification of reader, layout and '
         'transforms; the runs are systematic short texts plus coverage-guided random ones, so the assurance is bounded by '
         'what was run. Trusted: TLC, the specification, and the recording harness.')
