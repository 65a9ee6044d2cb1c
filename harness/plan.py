"""which driver, design models and trace specification decide which property"""
import json
import os
import re

PLAN = {
    'C01': dict(driver='c01', trace='CalendarTrace', gen=[('CalendarMC', 'CalendarMC.cfg', 'CalendarMCt.cfg')]),
    'C02': dict(driver='c02', trace='PrecipTrace', design=[('CascadeMC', 'CascadeMC.cfg')]),
    'C03': dict(driver='c03', trace='MissingTrace', gen=[('MissingMC', 'MissingMC.cfg', 'MissingMCt.cfg')]),
    'C04': dict(driver='c04', trace='CascadeTrace', design=[('CascadeMC', 'CascadeMC.cfg')]),
    'C05': dict(driver='c05', trace='CascadeStatsTrace', design=[('CascadeStatsMC', 'CascadeStatsMC.cfg')]),
    'C06': dict(driver='c06', trace='SeasonTrace', design=[('SeasonMC', 'SeasonMC.cfg')]),
    'C07': dict(driver='c07', trace='TempTrace', design=[('TemperatureMC', 'TemperatureMC.cfg')], gen=[('TemperatureMC', 'TemperatureGen.cfg')]),
    'C08': dict(driver='c08', trace='TempTrace', design=[('TemperatureMC', 'TemperatureMC.cfg')]),
    'C09': dict(driver='c09', trace='TempTrace', gen=[('PolarMC', 'PolarMC.cfg', 'PolarMCt.cfg')]),
    'C10': dict(driver='c10', trace='HumidityTrace', design=[('HumidityMC', 'HumidityMC.cfg')]),
    'C11': dict(driver='c11', trace='HumidityTrace', design=[('HumidityMC', 'HumidityMC.cfg')]),
    'C12': dict(driver='c12', trace='WindTrace', design=[('WindMC', 'WindMC.cfg')]),
    'C13': dict(driver='c13', trace='RadiationTrace', design=[('RadiationMC', 'RadiationMC.cfg')]),
    'C14': dict(driver='c14', trace='RadiationTrace', design=[('RadiationMC', 'RadiationMC.cfg')]),
    'C15': dict(driver='c15', trace='SolarTrace', design=[('SolarMC', 'SolarMC.cfg', 'SolarMCt.cfg'), ('FixMC', 'FixMC.cfg')]),
    'C16': dict(driver='c16', trace='SolarTrace', design=[('SolarMC', 'SolarMC.cfg', 'SolarMCt.cfg'), ('FixMC', 'FixMC.cfg')]),
    'C17': dict(driver='c17', trace='StationTrace', hist=[('core', 'StationCore.cfg', None), ('empty', 'StationEmpty.cfg', None), ('again', 'StationAgain.cfg', None), ('long', 'StationLong.cfg', (80, 1500))]),
    'C18': dict(driver='c18', trace='StationTrace', hist=[('share', 'StationShare.cfg', None), ('clone', 'StationClone.cfg', None), ('isolate', 'StationIsolate.cfg', (80, 1000))]),
    'C19': dict(driver='c19', trace='StationTrace', hist=[('json', 'StationJson.cfg', None), ('jsonlong', 'StationJsonLong.cfg', (60, 800))]),
    'C20': dict(driver='c20', trace='SmetTrace', gen=[('SmetMC', 'SmetMC.cfg')]),
    'C21': dict(driver='c21', trace='WeatherFilesTrace', gen=[('WeatherFilesMC', 'WeatherFilesMC.cfg')]),
    'C22': dict(driver='c22', trace='AggregateTrace', gen=[('AggregateMC', 'AggregateMC.cfg', 'AggregateMCt.cfg')]),
    'C23': dict(driver='c23', trace='InterpTrace', gen=[('InterpMC', 'InterpMC.cfg', 'InterpMCt.cfg')]),
    'C24': dict(driver='c24', trace='DiurnalTrace', design=[('DiurnalMC', 'DiurnalMC.cfg', 'DiurnalMCt.cfg')]),
    'C25': dict(driver='c25', trace='PipelineTrace', design=[('PipelineMC', 'PipelineMC.cfg')]),
    'C26': dict(driver='c26', trace='PipelineTrace', design=[('PipelineMC', 'PipelineMC.cfg')]),
    'C27': dict(driver='c27', trace='WindowTrace', gen=[('WindowMC', 'WindowMC.cfg', 'WindowMCt.cfg')]),
    'C28': dict(driver='c28', trace='CascadeValueTrace', hist=[('values', 'CascadeValueMC.cfg', None, 'CascadeValueMC')]),
    'C29': dict(driver='c29', trace='AbsenceTrace', gen=[('AbsenceMC', 'AbsenceMC.cfg', 'AbsenceMCt.cfg')]),
}


def tla_value(text):
    """a dumped TLA+ value (numbers, strings, booleans, tuples, sets, records) as python data"""
    t = text.replace('<<', '[').replace('>>', ']').replace('{', '[').replace('}', ']')
    t = re.sub(r'(\w+) \|->', r'"\1":', t)
    t = re.sub(r'\bTRUE\b', 'true', re.sub(r'\bFALSE\b', 'false', t))
    # records are written [a |-> 1, ...]: brackets that contain a top-level key become objects
    out, stack = [], []
    for i, c in enumerate(t):
        if c == '[':
            rec = re.match(r'\[\s*"\w+":', t[i:]) is not None
            stack.append(rec)
            out.append('{' if rec else '[')
        elif c == ']':
            out.append('}' if stack.pop() else ']')
        else:
            out.append(c)
    return json.loads(''.join(out))


def generate(g, tier, seed, work, tlc):
    """enumerate the states of a design model for replay: work/gen-<module>.json"""
    cfg = g[1] if tier == 'quick' or len(g) < 3 else g[2]
    dump = os.path.join(work, 'dump-' + g[0])
    extra = ['-dump', dump]
    if len(g) > 3:
        extra = g[3](tier, seed, dump)
    r = tlc(g[0], cfg, os.path.join(work, 'gen-' + g[0]), extra=extra)
    if not r['ok']:
        raise RuntimeError('generation with %s failed:\n%s' % (g[0], r['out'][-3000:]))
    states = []
    for block in re.split(r'^State \d+:\s*$', open(dump + '.dump').read(), flags=re.M)[1:]:
        st = {}
        for m in re.finditer(r'^(?:/\\ )?(\w+) = (.*?)(?=^/\\ \w+ = |\Z)', block.strip() + '\n', flags=re.M | re.S):
            st[m.group(1)] = tla_value(m.group(2).strip())
        states.append(st)
    json.dump(states, open(os.path.join(work, 'gen-%s.json' % g[0]), 'w'))
    return r


def histories(h, tier, seed, work, tlc):
    """behaviours of the station model for replay: all short ones, or random long ones: work/hist-<name>.json"""
    name, cfg, sim = h[:3]
    module = h[3] if len(h) > 3 else 'StationMC'
    extra = []
    if sim:
        extra = ['-simulate', 'num=%d' % sim[0 if tier == 'quick' else 1], '-depth', '40', '-seed', str(seed)]
    r = tlc(module, cfg, os.path.join(work, 'hist-' + name), workers=1 if sim else 4, extra=extra)
    if not r['ok']:
        raise RuntimeError('generation with %s failed:\n%s' % (cfg, r['out'][-3000:]))
    res = [json.loads(json.loads(x)[5:]) for x in r['out'].splitlines() if x.startswith('"HIST ')]
    r['out'] = ''
    json.dump(res, open(os.path.join(work, 'hist-%s.json' % name), 'w'))
    return r


NA = {}
