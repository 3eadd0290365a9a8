"""Generates OpenDRIVE roads and OpenSCENARIO files from small JSON-able models."""
from xml.sax.saxutils import quoteattr as q


def num(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return repr(v)
    return str(v)


def A(**kw):
    return ''.join(f' {k.rstrip("_")}={q(num(v))}' for k, v in kw.items() if v is not None)


# ------------------------------------------------------------------ roads
def road(kind='flat', length=4000.0, lanes=3, width=3.5):
    """flat: one straight road (id 1) along x.  chain: three straight collinear roads 1,2,3.
    curve: line-arc-line.  hill: straight in xy with elevation."""
    def lane_sec(link_pred=False, link_succ=False):
        def side(ids):
            o = ''
            for i in ids:
                ln = ''
                if link_pred:
                    ln += f'<predecessor id="{i}"/>'
                if link_succ:
                    ln += f'<successor id="{i}"/>'
                o += (f'<lane id="{i}" type="driving" level="false"><link>{ln}</link>'
                      f'<width sOffset="0" a="{width}" b="0" c="0" d="0"/></lane>')
            return o
        return ('<lanes><laneSection s="0"><left>' + side(range(lanes, 0, -1)) +
                '</left><center><lane id="0" type="none" level="false"><link></link></lane></center><right>' +
                side(range(-1, -lanes - 1, -1)) + '</right></laneSection></lanes>')

    def geo(segs):
        s, x, y, h = 0.0, 0.0, 0.0, 0.0
        import math
        o = ''
        for (l, k) in segs:
            o += f'<geometry s="{s!r}" x="{x!r}" y="{y!r}" hdg="{h!r}" length="{l!r}">' + ('<line/>' if k == 0 else f'<arc curvature="{k!r}"/>') + '</geometry>'
            if k == 0:
                x += l * math.cos(h)
                y += l * math.sin(h)
            else:
                x += (math.sin(h + l * k) - math.sin(h)) / k
                y += -(math.cos(h + l * k) - math.cos(h)) / k
                h += l * k
            s += l
        return '<planView>' + o + '</planView>', s

    head = '<?xml version="1.0"?><OpenDRIVE><header revMajor="1" revMinor="6" name="" version="1.00" north="0" south="0" east="0" west="0"/>'
    if kind == 'chain':
        n, L = 3, length / 3.0
        o = head
        for i in range(n):
            lk = ''
            if i > 0:
                lk += f'<predecessor elementType="road" elementId="{i}" contactPoint="end"/>'
            if i < n - 1:
                lk += f'<successor elementType="road" elementId="{i + 2}" contactPoint="start"/>'
            o += (f'<road name="" length="{L!r}" id="{i + 1}" junction="-1"><link>{lk}</link><planView>'
                  f'<geometry s="0" x="{i * L!r}" y="0" hdg="0" length="{L!r}"><line/></geometry></planView>' +
                  lane_sec(i > 0, i < n - 1) + '</road>')
        return o + '</OpenDRIVE>'
    if kind == 'cross':
        return head + cross(length, lanes, width, lane_sec) + '</OpenDRIVE>'
    elev = ''
    if kind == 'curve':
        pv, L = geo([(100.0, 0), (300.0, 1 / 150.0), (200.0, 0), (250.0, -1 / 90.0), (length, 0)])
    elif kind == 'hill':
        pv, L = geo([(length, 0)])
        elev = '<elevationProfile><elevation s="0" a="0" b="0" c="0" d="0"/><elevation s="100" a="0" b="0.08" c="0" d="0"/><elevation s="400" a="24" b="-0.05" c="0" d="0"/></elevationProfile>'
    else:
        pv, L = geo([(length, 0)])
    return head + f'<road name="" length="{L!r}" id="1" junction="-1"><link></link>' + pv + elev + lane_sec() + '</road></OpenDRIVE>'


def cross(length, lanes, width, lane_sec, R=25.0, cx=110.0):
    # four arms (roads 1-4) that leave a junction around (cx, 0), joined by straight and curved connecting roads (11-22)
    import math
    th = [k * math.pi / 2 for k in range(4)]
    pt = [(round(cx + R * math.cos(t), 9), round(R * math.sin(t), 9)) for t in th]
    o = ''
    for k in range(4):
        o += (f'<road name="" length="{length!r}" id="{k + 1}" junction="-1"><link><predecessor elementType="junction" elementId="50"/></link><planView>'
              f'<geometry s="0" x="{pt[k][0]!r}" y="{pt[k][1]!r}" hdg="{th[k]!r}" length="{length!r}"><line/></geometry></planView>' + lane_sec() + '</road>')
    n, con = 11, ''
    for i in range(4):
        for d in (1, 2, 3):
            j = (i + d) % 4
            L, g = (2 * R, '<line/>') if d == 2 else (math.pi * R / 2, f'<arc curvature="{(-1 if d == 1 else 1) / R!r}"/>')
            ln = ''.join(f'<lane id="{-k}" type="driving" level="false"><link><predecessor id="{k}"/><successor id="{-k}"/></link><width sOffset="0" a="{width}" b="0" c="0" d="0"/></lane>' for k in range(1, lanes + 1))
            o += (f'<road name="" length="{L!r}" id="{n}" junction="50"><link><predecessor elementType="road" elementId="{i + 1}" contactPoint="start"/><successor elementType="road" elementId="{j + 1}" contactPoint="start"/></link>'
                  f'<planView><geometry s="0" x="{pt[i][0]!r}" y="{pt[i][1]!r}" hdg="{(th[i] + math.pi) % (2 * math.pi)!r}" length="{L!r}">{g}</geometry></planView>'
                  f'<lanes><laneSection s="0"><center><lane id="0" type="none" level="false"><link></link></lane></center><right>{ln}</right></laneSection></lanes></road>')
            con += f'<connection id="{n - 11}" incomingRoad="{i + 1}" connectingRoad="{n}" contactPoint="start">' + ''.join(f'<laneLink from="{k}" to="{-k}"/>' for k in range(1, lanes + 1)) + '</connection>'
            n += 1
    return o + f'<junction name="" id="50">{con}</junction>'


# ------------------------------------------------------------------ entities
def vehicle(o):
    bb = o.get('bb', [1.4, 0.0, 0.75, 2.0, 5.0, 1.5])
    perf = o.get('perf', [70.0, 10.0, 10.0])
    fa = o.get('front', [0.5, 0.8, 1.7, 2.8, 0.4])
    props = ''.join(f'<Property{A(name=k, value=v)}/>' for k, v in o.get('props', []))
    tr = ''
    if 'coupler' in o:
        tr += f'<TrailerCoupler{A(dx=o["coupler"])}/>'
    if 'hitch' in o:
        tr = f'<TrailerHitch{A(dx=o["hitch"])}/>' + tr
    if 'trailer' in o:
        tr += f'<Trailer><TrailerRef{A(entityRef=o["trailer"])}/></Trailer>'
    return (f'<Vehicle{A(name=o.get("model", "veh_" + o["name"]), vehicleCategory=o.get("cat", "car"))}>{tr}'
            f'<ParameterDeclarations/><Performance{A(maxSpeed=perf[0], maxAcceleration=perf[1], maxDeceleration=perf[2])}/>'
            f'<BoundingBox><Center{A(x=bb[0], y=bb[1], z=bb[2])}/><Dimensions{A(width=bb[3], length=bb[4], height=bb[5])}/></BoundingBox>'
            f'<Axles><FrontAxle{A(maxSteering=fa[0], wheelDiameter=fa[1], trackWidth=fa[2], positionX=fa[3], positionZ=fa[4])}/>'
            f'<RearAxle{A(maxSteering=0.0, wheelDiameter=fa[1], trackWidth=fa[2], positionX=0.0, positionZ=fa[4])}/></Axles>'
            f'<Properties>{props}</Properties></Vehicle>')


def entity(o):
    k = o.get('kind', 'vehicle')
    bb = o.get('bb', [0.06, 0.0, 0.9, 0.5, 0.6, 1.8])
    bbx = f'<BoundingBox><Center{A(x=bb[0], y=bb[1], z=bb[2])}/><Dimensions{A(width=bb[3], length=bb[4], height=bb[5])}/></BoundingBox>'
    if k == 'vehicle':
        body = vehicle(o)
    elif k == 'pedestrian':
        body = f'<Pedestrian{A(name="ped_" + o["name"], mass=80.0, model="x", pedestrianCategory="pedestrian")}><ParameterDeclarations/>{bbx}<Properties/></Pedestrian>'
    else:
        body = f'<MiscObject{A(name="misc_" + o["name"], mass=80.0, miscObjectCategory="obstacle")}><ParameterDeclarations/>{bbx}<Properties/></MiscObject>'
    ctrl = ''
    for c in o.get('ctrls', []):
        ctrl += f'<ObjectController>{controller(c)}</ObjectController>'
    return f'<ScenarioObject{A(name=o["name"])}>{body}{ctrl}</ScenarioObject>'


def controller(c):
    props = f'<Property{A(name="esminiController", value=c["type"])}/>' + ''.join(f'<Property{A(name=k, value=v)}/>' for k, v in c.get('props', []))
    return f'<Controller{A(name=c.get("name", c["type"]))}><ParameterDeclarations/><Properties>{props}</Properties></Controller>'


# ------------------------------------------------------------------ positions
def position(p):
    t = p[0]
    ori = ''
    if t == 'lane':  # road lane s offset [h, type]
        if len(p) > 5:
            ori = f'<Orientation{A(h=p[5], type=p[6] if len(p) > 6 else "relative")}/>'
        return f'<Position><LanePosition{A(roadId=p[1], laneId=p[2], s=p[3], offset=p[4])}>{ori}</LanePosition></Position>'
    if t == 'road':
        return f'<Position><RoadPosition{A(roadId=p[1], s=p[2], t=p[3])}/></Position>'
    if t == 'world':
        return f'<Position><WorldPosition{A(x=p[1], y=p[2], z=p[3], h=p[4])}/></Position>'
    if t == 'rellane':  # ref dLane ds offset
        return f'<Position><RelativeLanePosition{A(entityRef=p[1], dLane=p[2], ds=p[3], offset=p[4])}/></Position>'
    if t == 'relobj':  # ref dx dy dz
        return f'<Position><RelativeObjectPosition{A(entityRef=p[1], dx=p[2], dy=p[3], dz=p[4])}/></Position>'
    if t == 'relworld':
        return f'<Position><RelativeWorldPosition{A(entityRef=p[1], dx=p[2], dy=p[3], dz=p[4])}/></Position>'
    if t == 'relroad':
        return f'<Position><RelativeRoadPosition{A(entityRef=p[1], ds=p[2], dt=p[3])}/></Position>'
    raise ValueError(t)


# ------------------------------------------------------------------ actions
def dyn(tag, d):  # [shape, dimension, value]
    return f'<{tag}{A(dynamicsShape=d[0], dynamicsDimension=d[1], value=d[2])}/>'


def action(a):
    """inner xml of <Action> / <PrivateAction> wrapper; returns (wrapper, xml)"""
    k = a['k']
    P = lambda s: f'<PrivateAction>{s}</PrivateAction>'
    G = lambda s: f'<GlobalAction>{s}</GlobalAction>'
    if k == 'speed':
        if 'rel' in a:
            tgt = f'<RelativeTargetSpeed{A(entityRef=a["rel"], value=a["v"], speedTargetValueType=a.get("vt", "delta"), continuous=a.get("cont", False))}/>'
        else:
            tgt = f'<AbsoluteTargetSpeed{A(value=a["v"])}/>'
        return P(f'<LongitudinalAction><SpeedAction>{dyn("SpeedActionDynamics", a["dyn"])}<SpeedActionTarget>{tgt}</SpeedActionTarget></SpeedAction></LongitudinalAction>')
    if k == 'profile':  # entries [[speed, time|None]], 'follow' mode
        e = ''.join(f'<SpeedProfileEntry{A(speed=x[0], time=x[1])}/>' for x in a['entries'])
        dc = ''
        if 'dc' in a:
            d = a['dc']
            dc = f'<DynamicConstraints{A(maxAcceleration=d[0], maxAccelerationRate=d[1], maxDeceleration=d[2], maxDecelerationRate=d[3], maxSpeed=d[4])}/>'
        ref = f'<EntityRef{A(entityRef=a["rel"])}/>' if 'rel' in a else ''
        return P(f'<LongitudinalAction><SpeedProfileAction{A(followingMode=a.get("mode", "position"))}>{ref}{dc}{e}</SpeedProfileAction></LongitudinalAction>')
    if k == 'longdist':
        dc = ''
        if 'dc' in a:
            d = a['dc']
            dc = f'<DynamicConstraints{A(maxAcceleration=d[0], maxDeceleration=d[1], maxSpeed=d[2])}/>'
        return P(f'<LongitudinalAction><LongitudinalDistanceAction{A(entityRef=a["rel"], distance=a.get("d"), timeGap=a.get("tg"), displacement=a.get("disp"), freespace=a.get("fs", False), continuous=a.get("cont", True))}>{dc}</LongitudinalDistanceAction></LongitudinalAction>')
    if k == 'lanechange':
        tgt = f'<RelativeTargetLane{A(entityRef=a["rel"], value=a["v"])}/>' if 'rel' in a else f'<AbsoluteTargetLane{A(value=a["v"])}/>'
        return P(f'<LateralAction><LaneChangeAction{A(targetLaneOffset=a.get("off"))}>{dyn("LaneChangeActionDynamics", a["dyn"])}<LaneChangeTarget>{tgt}</LaneChangeTarget></LaneChangeAction></LateralAction>')
    if k == 'laneoffset':
        tgt = f'<RelativeTargetLaneOffset{A(entityRef=a["rel"], value=a["v"])}/>' if 'rel' in a else f'<AbsoluteTargetLaneOffset{A(value=a["v"])}/>'
        return P(f'<LateralAction><LaneOffsetAction{A(continuous=a.get("cont", False))}><LaneOffsetActionDynamics{A(maxLateralAcc=a.get("acc", 0.5), dynamicsShape=a.get("shape", "sinusoidal"))}/><LaneOffsetTarget>{tgt}</LaneOffsetTarget></LaneOffsetAction></LateralAction>')
    if k == 'teleport':
        return P(f'<TeleportAction>{position(a["pos"])}</TeleportAction>')
    if k == 'visibility':
        return P(f'<VisibilityAction{A(graphics=a["v"][0], traffic=a["v"][1], sensors=a["v"][2])}/>')
    if k == 'light':
        return P(f'<AppearanceAction><LightStateAction{A(transitionTime=0)}><LightType><VehicleLight{A(vehicleLightType=a["lt"])}/></LightType><LightState{A(mode=a["mode"], flashingOffDuration=a.get("off"), flashingOnDuration=a.get("on"))}/></LightStateAction></AppearanceAction>')
    if k == 'route':
        w = ''.join(f'<Waypoint routeStrategy="shortest">{position(p)}</Waypoint>' for p in a['wps'])
        return P(f'<RoutingAction><AssignRouteAction><Route{A(name="r", closed=False)}><ParameterDeclarations/>{w}</Route></AssignRouteAction></RoutingAction>')
    if k == 'acquire':
        return P(f'<RoutingAction><AcquirePositionAction>{position(a["pos"])}</AcquirePositionAction></RoutingAction>')
    if k == 'traj':  # verts [[t, pos]]
        v = ''.join(f'<Vertex{A(time=x[0])}>{position(x[1])}</Vertex>' for x in a['verts'])
        tr = '<None/>' if not a.get('timing') else f'<Timing{A(domainAbsoluteRelative=a["timing"][0], scale=a["timing"][1], offset=a["timing"][2])}/>'
        return P(f'<RoutingAction><FollowTrajectoryAction{A(initialDistanceOffset=a.get("ido"))}><TrajectoryRef><Trajectory{A(name="tr", closed=a.get("closed", False))}><ParameterDeclarations/><Shape><Polyline>{v}</Polyline></Shape></Trajectory></TrajectoryRef>'
                 f'<TimeReference>{tr}</TimeReference><TrajectoryFollowingMode{A(followingMode=a.get("mode", "position"))}/></FollowTrajectoryAction></RoutingAction>')
    if k == 'assign':
        return P(f'<ControllerAction><AssignControllerAction{A(activateLateral=a.get("lat"), activateLongitudinal=a.get("lon"))}>{controller(a["ctrl"])}</AssignControllerAction></ControllerAction>')
    if k == 'activate':
        return P(f'<ActivateControllerAction{A(objectControllerRef=a.get("ref"), lateral=a.get("lat"), longitudinal=a.get("lon"))}/>')
    if k == 'sync':
        return P(f'<SynchronizeAction{A(masterEntityRef=a["master"], targetTolerance=a.get("tol"), targetToleranceMaster=a.get("tolm"))}><TargetPositionMaster>{position(a["mpos"])[10:-11]}</TargetPositionMaster><TargetPosition>{position(a["pos"])[10:-11]}</TargetPosition>{a.get("final", "")}</SynchronizeAction>')
    if k == 'connect':
        return P(f'<TrailerAction><ConnectTrailerAction{A(trailerRef=a["trailer"])}/></TrailerAction>')
    if k == 'disconnect':
        return P('<TrailerAction><DisconnectTrailerAction/></TrailerAction>')
    if k == 'param':
        return G(f'<ParameterAction{A(parameterRef=a["p"])}><SetAction{A(value=a["v"])}/></ParameterAction>')
    if k == 'var':
        m = f'<SetAction{A(value=a["v"])}/>' if 'v' in a else '<ModifyAction><Rule>' + (f'<AddValue{A(value=a["add"])}/>' if 'add' in a else f'<MultiplyByValue{A(value=a["mul"])}/>') + '</Rule></ModifyAction>'
        return G(f'<VariableAction{A(variableRef=a["p"])}>{m}</VariableAction>')
    if k == 'delete':
        return G(f'<EntityAction{A(entityRef=a["e"])}><DeleteEntityAction/></EntityAction>')
    if k == 'addent':
        return G(f'<EntityAction{A(entityRef=a["e"])}><AddEntityAction>{position(a["pos"])}</AddEntityAction></EntityAction>')
    if k == 'tlight':
        return G(f'<InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction{A(name=a["id"], state=a["state"])}/></TrafficSignalAction></InfrastructureAction>')
    if k == 'swarm':
        return G(f'<TrafficAction{A(trafficName="sw")}><TrafficSwarmAction{A(semiMajorAxis=a["a"], semiMinorAxis=a["b"], innerRadius=a["inner"], offset=a["off"], numberOfVehicles=a["n"], velocity=a.get("v"))}><CentralObject{A(entityRef=a["e"])}/>'
                 f'<InitialSpeedRange{A(lowerLimit=a["lo"], upperLimit=a["hi"])}/></TrafficSwarmAction></TrafficAction>')
    if k == 'custom':
        return f'<UserDefinedAction><CustomCommandAction{A(type="x")}>{a.get("t", "")}</CustomCommandAction></UserDefinedAction>'
    if k == 'raw':
        return a['xml']
    raise ValueError(k)


# ------------------------------------------------------------------ conditions
def condition(c):
    k = c['k']
    head = f'<Condition{A(name=c["name"], delay=c.get("delay", 0), conditionEdge=c.get("edge", "none"))}>'
    V = lambda s: f'<ByValueCondition>{s}</ByValueCondition>'

    def E(s):
        refs = ''.join(f'<EntityRef{A(entityRef=e)}/>' for e in c['ents'])
        return f'<ByEntityCondition><TriggeringEntities{A(triggeringEntitiesRule=c.get("any", "any"))}>{refs}</TriggeringEntities><EntityCondition>{s}</EntityCondition></ByEntityCondition>'
    if k == 'time':
        b = V(f'<SimulationTimeCondition{A(value=c["v"], rule=c["rule"])}/>')
    elif k == 'param':
        b = V(f'<ParameterCondition{A(parameterRef=c["p"], value=c["v"], rule=c["rule"])}/>')
    elif k == 'var':
        b = V(f'<VariableCondition{A(variableRef=c["p"], value=c["v"], rule=c["rule"])}/>')
    elif k == 'state':
        b = V(f'<StoryboardElementStateCondition{A(storyboardElementType=c["et"], storyboardElementRef=c["ref"], state=c["state"])}/>')
    elif k == 'speed':
        b = E(f'<SpeedCondition{A(value=c["v"], rule=c["rule"], direction=c.get("dir"))}/>')
    elif k == 'relspeed':
        b = E(f'<RelativeSpeedCondition{A(entityRef=c["rel"], value=c["v"], rule=c["rule"], direction=c.get("dir"))}/>')
    elif k == 'acc':
        b = E(f'<AccelerationCondition{A(value=c["v"], rule=c["rule"], direction=c.get("dir"))}/>')
    elif k == 'reach':
        b = E(f'<ReachPositionCondition{A(tolerance=c["tol"])}>{position(c["pos"])}</ReachPositionCondition>')
    elif k == 'dist':
        b = E(f'<DistanceCondition{A(value=c["v"], rule=c["rule"], freespace=c.get("fs", False), coordinateSystem=c.get("cs"), relativeDistanceType=c.get("rdt"))}>{position(c["pos"])}</DistanceCondition>')
    elif k == 'reldist':
        b = E(f'<RelativeDistanceCondition{A(entityRef=c["rel"], value=c["v"], rule=c["rule"], freespace=c.get("fs", False), coordinateSystem=c.get("cs"), relativeDistanceType=c.get("rdt", "longitudinal"))}/>')
    elif k == 'headway':
        b = E(f'<TimeHeadwayCondition{A(entityRef=c["rel"], value=c["v"], rule=c["rule"], freespace=c.get("fs", False), coordinateSystem=c.get("cs"), relativeDistanceType=c.get("rdt"))}/>')
    elif k == 'ttc':
        b = E(f'<TimeToCollisionCondition{A(value=c["v"], rule=c["rule"], freespace=c.get("fs", False), relativeDistanceType=c.get("rdt"))}><TimeToCollisionConditionTarget><EntityRef{A(entityRef=c["rel"])}/></TimeToCollisionConditionTarget></TimeToCollisionCondition>')
    elif k == 'travel':
        b = E(f'<TraveledDistanceCondition{A(value=c["v"])}/>')
    elif k == 'standstill':
        b = E(f'<StandStillCondition{A(duration=c["v"])}/>')
    elif k == 'collision':
        b = E(f'<CollisionCondition>' + (f'<ByType{A(type=c["bytype"])}/>' if "bytype" in c else f'<EntityRef{A(entityRef=c["rel"])}/>') + '</CollisionCondition>')
    elif k == 'offroad':
        b = E(f'<OffroadCondition{A(duration=c["v"])}/>')
    elif k == 'endofroad':
        b = E(f'<EndOfRoadCondition{A(duration=c["v"])}/>')
    elif k == 'angle':
        b = E(f'<AngleCondition{A(angleType=c.get("at", "heading"), angle=c["v"], angleTolerance=c["tol"], coordinateSystem=c["cs"])}/>')
    elif k == 'clearance':
        b = E(f'<RelativeClearanceCondition{A(distanceForward=c["fwd"], distanceBackward=c["back"], freeSpace=c.get("fs", False), oppositeLanes=c["opp"])}><RelativeLaneRange{A(**{"from": c["lanes"][0], "to": c["lanes"][1]})}/>' + ''.join(f'<EntityRef{A(entityRef=r)}/>' for r in c.get('refs', [])) + '</RelativeClearanceCondition>')
    else:
        raise ValueError(k)
    return head + b + '</Condition>'


def trigger(tag, t):
    if t is None:
        return ''
    return f'<{tag}>' + ''.join('<ConditionGroup>' + ''.join(condition(c) for c in g) + '</ConditionGroup>' for g in t) + f'</{tag}>'


def event(e):
    acts = ''.join(f'<Action{A(name=a["name"])}>{action(a)}</Action>' for a in e['actions'])
    return f'<Event{A(name=e["name"], priority=e.get("prio", "parallel"), maximumExecutionCount=e.get("max"))}>{acts}{trigger("StartTrigger", e.get("start"))}</Event>'


def scenario(m):
    decl = lambda tag, item, l: f'<{tag}>' + ''.join(f'<{item}{A(name=x[0], **{item[0].lower() + item[1:-11] + "Type": x[1]}, value=x[2])}/>' for x in l) + f'</{tag}>' if l else ''
    params = decl('ParameterDeclarations', 'ParameterDeclaration', m.get('params', []))
    variables = decl('VariableDeclarations', 'VariableDeclaration', m.get('vars', []))
    ents = ''.join(entity(o) for o in m['objects'])
    init = ''.join(action(a) for a in m.get('init_global', []))
    for o in m['objects']:
        if o.get('init'):
            init += f'<Private{A(entityRef=o["name"])}>' + ''.join(action(a) for a in o['init']) + '</Private>'
    story = ''
    for s in m.get('stories', []):
        story += f'<Story{A(name=s["name"])}>'
        for a in s['acts']:
            story += f'<Act{A(name=a["name"])}>'
            for g in a['groups']:
                refs = ''.join(f'<EntityRef{A(entityRef=x)}/>' for x in g['actors'])
                story += f'<ManeuverGroup{A(name=g["name"], maximumExecutionCount=g.get("max", 1))}><Actors{A(selectTriggeringEntities=g.get("sel", False))}>{refs}</Actors>'
                for mn in g['mans']:
                    story += f'<Maneuver{A(name=mn["name"])}>' + ''.join(event(e) for e in mn['events']) + '</Maneuver>'
                story += '</ManeuverGroup>'
            story += trigger('StartTrigger', a.get('start')) + trigger('StopTrigger', a.get('stop')) + '</Act>'
        story += '</Story>'
    stop = trigger('StopTrigger', m['stop']) if m.get('stop') else '<StopTrigger/>'
    cat = m.get('catalogs', '')
    tl = m.get('tlights', '')
    return ('<?xml version="1.0"?><OpenSCENARIO><FileHeader revMajor="1" revMinor="2" date="2024-01-01T00:00:00" description="" author=""/>' +
            params + variables + (cat or '<CatalogLocations/>') + f'<RoadNetwork><LogicFile{A(filepath=m.get("roadfile", "road.xodr"))}/>{tl}</RoadNetwork><Entities>{ents}</Entities>'
            f'<Storyboard><Init><Actions>{init}</Actions></Init>{story}{stop}</Storyboard></OpenSCENARIO>')
