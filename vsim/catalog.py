"""Turns parts of a scenario into catalog entries, with parameters."""
import random, re

DIRS = {'Vehicle': 'VehicleCatalog', 'Pedestrian': 'PedestrianCatalog', 'MiscObject': 'MiscObjectCatalog', 'Controller': 'ControllerCatalog',
        'Maneuver': 'ManeuverCatalog', 'Trajectory': 'TrajectoryCatalog', 'Route': 'RouteCatalog'}
NUM = re.compile(r' (\w+)="(-?\d+(?:\.\d+)?(?:e-?\d+)?)"')


def parametrise(rng, xml, n, glob):
    """replace n numeric attribute values by parameters; returns the entry and the assignments of the reference"""
    at = [m for m in NUM.finditer(xml) if m.group(1) not in ('maximumExecutionCount',)]
    at = sorted(rng.sample(at, min(n, len(at))), key=lambda m: -m.start())
    decl, ass = '', ''
    for j, m in enumerate(at):
        p, v = f'p{j}', m.group(2)
        how = 'default' if glob is None else rng.choice(['default', 'literal', 'global'])
        ptype = 'integer' if re.fullmatch(r'-?\d+', v) else 'double'
        default = v if how == 'default' else rng.choice(['0', '1', '7'])
        decl += f'<ParameterDeclaration name="{p}" parameterType="{ptype}" value="{default}"/>'
        if how == 'literal':
            ass += f'<ParameterAssignment parameterRef="{p}" value="{v}"/>'
        elif how == 'global':
            g = f'g{len(glob)}'
            glob.append((g, ptype, v))
            ass += f'<ParameterAssignment parameterRef="{p}" value="${g}"/>'
        xml = xml[:m.start(2)] + '$' + p + xml[m.end(2):]
    return xml, decl, ass


def catalogize(xml, seed, kinds, prob, nparam):
    """-> scenario with references, the same scenario without, {file: content}"""
    rng = random.Random(seed)
    cats, glob = {}, []
    plain = xml

    def put(tag, el):
        name = re.match(r'<\w+ [^>]*?name="([^"]*)"', el).group(1)
        el, decl, ass = parametrise(rng, el, rng.randint(0, nparam), glob)
        if decl:
            d = f'<ParameterDeclarations>{decl}</ParameterDeclarations>'
            if tag != 'Maneuver' and '<ParameterDeclarations/>' in el:
                el = el.replace('<ParameterDeclarations/>', d, 1)
            else:
                i = el.index('>') + 1
                el = el[:i] + d + el[i:]
        for k in range(99):
            c = cats.setdefault(f'{tag}Cat{k}', {})
            if c.get(name, el) == el:
                c[name] = el
                break
        ref = f'<CatalogReference catalogName="{tag}Cat{k}" entryName="{name}"'
        return ref + (f'><ParameterAssignments>{ass}</ParameterAssignments></CatalogReference>' if ass else '/>')

    for tag in ('Controller', 'Trajectory', 'Route', 'Maneuver', 'Vehicle', 'Pedestrian', 'MiscObject'):
        if tag == 'Maneuver' and tag in kinds:      # references come before maneuvers in a group
            one = lambda m: put(tag, m.group(0))
            xml = re.sub(r'<ManeuverGroup .*?</ManeuverGroup>', lambda m: re.sub(r'<Maneuver .*?</Maneuver>', one, m.group(0), flags=re.S) if rng.random() < prob else m.group(0), xml, flags=re.S)
        elif tag in kinds:
            xml = re.sub(rf'<{tag} .*?</{tag}>', lambda m: put(tag, m.group(0)) if rng.random() < prob else m.group(0), xml, flags=re.S)
    if 'Story' in kinds:
        def story(m):
            el, decl, _ = parametrise(rng, m.group(0), rng.randint(1, nparam + 1), None)
            i = el.index('>') + 1
            return el[:i] + f'<ParameterDeclarations>{decl}</ParameterDeclarations>' + el[i:]
        xml = re.sub(r'<Story .*?</Story>', story, xml, flags=re.S)
    g = ''.join(f'<ParameterDeclaration name="{a}" parameterType="{b}" value="{c}"/>' for a, b, c in glob)
    out = []
    for x in (xml, plain):
        x = x.replace('<ParameterDeclarations>', '<ParameterDeclarations>' + g, 1) if x.find('<ParameterDeclarations>') >= 0 and x.find('<ParameterDeclarations>') < x.find('<CatalogLocations/>') \
            else x.replace('<CatalogLocations/>', f'<ParameterDeclarations>{g}</ParameterDeclarations><CatalogLocations/>', 1)
        out.append(x)
    used = sorted({n.split('Cat')[0] for n in cats})
    loc = ''.join(f'<{DIRS[t]}><Directory path="cats"/></{DIRS[t]}>' for t in used)
    out[0] = out[0].replace('<CatalogLocations/>', f'<CatalogLocations>{loc}</CatalogLocations>', 1)
    files = {f'cats/{n}.xosc': '<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="2" date="2024-01-01T00:00:00" description="" author=""/>'
             f'<Catalog name="{n}">' + ''.join(c.values()) + '</Catalog></OpenSCENARIO>' for n, c in cats.items() if c}
    return out[0], out[1], files
