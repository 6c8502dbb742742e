"""Edits that keep the behaviour (groups of them), on which every check must
stay quiet.  Used by tryref.py; no check reads this file."""

import re

GROUPS = {}


def apply(source, old, new):
    """replace `old` (blank lines do not count) by `new`; None unless it occurs once"""
    lines = [re.escape(line) for line in old.split("\n") if line.strip()]
    text = r"\n(?:[ \t]*\n)*".join(lines) + ("\n" if old.endswith("\n") else "")
    found = list(re.finditer(text, source))
    if len(found) != 1:
        return None
    return source[:found[0].start()] + new + source[found[0].end():]


def group(name, *edits):
    GROUPS[name] = list(edits)


PT = "pvtrace/algorithm/photon_tracer.py"
K = "pvtrace/engine/_kernel.pyx"

group("tracer-a",
  (PT, '''    count = collections.Counter([x.hit for x in intersections]).most_common()
    candidates = [x[0] for x in count if x[1] == 1]
    pairs = []
    for intersection in intersections:
        node = intersection.hit
        if node in candidates:
            pairs.append((node, intersection.distance))
    # [(node, dist), (node, dist)... ]
    pairs = sorted(pairs, key=lambda tup: tup[1])
    containers, _ = zip(*pairs)
    container = containers[0]
    return container
''', '''    crossings = collections.Counter(x.hit for x in intersections)
    once = [x for x in intersections if crossings[x.hit] == 1]
    nearest = min(once, key=lambda x: x.distance)
    return nearest.hit
'''),
  (PT, '''    # Remove on surface intersections
    intersections = [x for x in intersections if not close_to_zero(x.distance)]

    # Convert intersection points to world node
    intersections = [x.to(scene.root) for x in intersections]
''', '''    # Drop on surface intersections and convert the rest to the world node
    intersections = [
        x.to(scene.root) for x in intersections if not close_to_zero(x.distance)
    ]
'''),
  (PT, '''    if container == hit_node:
        # Leaving the container: the medium outside is what would contain the
        # ray beyond this surface, not simply the next node the ray would hit.
        adjacent = find_container(intersections[1:])
    else:
        adjacent = hit_node
''', '''    # Leaving the container: the medium outside is what would contain the
    # ray beyond this surface, not simply the next node the ray would hit.
    adjacent = (
        find_container(intersections[1:]) if container == hit_node else hit_node
    )
'''),
  (PT, '''    count = 0
    yield (ray, Event.GENERATE, None)
    while True:
        count += 1
        info = next_hit(scene, ray)
        if info is None:
            break
''', '''    yield (ray, Event.GENERATE, None)
    for count in itertools.count(1):
        info = next_hit(scene, ray)
        if info is None:
            return
'''),
  (PT, "import collections\n", "import collections\nimport itertools\n"),
  (PT, '''                if isinstance(component, Luminophore):
                    event = Event.EMIT
                elif isinstance(component, Scatterer):
                    event = Event.SCATTER
                else:
                    raise ValueError("Unknown component")
''', '''                event = _radiative_event(component)
'''),
  (PT, '''def step_forward(''', '''def _radiative_event(component):
    if isinstance(component, Luminophore):
        return Event.EMIT
    if isinstance(component, Scatterer):
        return Event.SCATTER
    raise ValueError("Unknown component")


def step_forward('''),
  (PT, '''                ray = component.nonradiative_absorb(ray)
                if isinstance(component, Reactor):
                    yield (
                        ray,
                        Event.REACT,
                        {"component": component.name, "container": container.name},
                    )
                else:
                    yield (
                        ray,
                        Event.NONRADIATIVE,
                        {"component": component.name, "container": container.name},
                    )
                break
''', '''                ray = component.nonradiative_absorb(ray)
                event = (
                    Event.REACT
                    if isinstance(component, Reactor)
                    else Event.NONRADIATIVE
                )
                meta = {"component": component.name, "container": container.name}
                yield (ray, event, meta)
                break
'''),
  (PT, '''    history = list(
        step_forward(
            scene,
            ray,
            maxsteps=maxsteps,
            maxpathlength=maxpathlength,
            emit_method=emit_method,
        )
    )
    # Remove metadata for backward compatability
    ray, events, _ = zip(*history)
    return list(zip(ray, events))''', '''    steps = step_forward(
        scene,
        ray,
        maxsteps=maxsteps,
        maxpathlength=maxpathlength,
        emit_method=emit_method,
    )
    # Remove metadata for backward compatability
    return [(ray_, event) for ray_, event, _ in steps]'''),
)

group("tracer-b",
  (PT, '''    count = 0
    yield (ray, Event.GENERATE, None)
    while True:
        count += 1
        info = next_hit(scene, ray)
        if info is None:
            break
''', '''    count = 1
    yield (ray, Event.GENERATE, None)
    info = next_hit(scene, ray)
    while info is not None:
'''),
  (PT, '''        if count > maxsteps or ray.travelled > maxpathlength:
            yield (''', '''        over_budget = count > maxsteps or ray.travelled > maxpathlength
        if over_budget:
            yield ('''),
  (PT, '''                        "container": container.name,
                    },
                )
                continue
            else:
                ray = component.nonradiative_absorb(ray)''', '''                        "container": container.name,
                    },
                )
            else:
                ray = component.nonradiative_absorb(ray)'''),
  (PT, '''            if surface.is_reflected(local_ray, hit.geometry, container, adjacent):
                ray = surface.reflect(
                    local_ray, hit.geometry, container, adjacent
                ).representation(hit, scene.root)
                yield (
                    ray,
                    Event.REFLECT,
                    {
                        "hit": hit.name,
                        "container": container.name,
                        "adjacent": None if adjacent is None else adjacent.name,
                        "normal": normal,
                    },
                )
                continue
            else:
                ray = surface.transmit(
                    local_ray, hit.geometry, container, adjacent
                ).representation(hit, scene.root)
                yield (
                    ray,
                    Event.TRANSMIT,
                    {
                        "hit": hit.name,
                        "container": container.name,
                        "adjacent": adjacent.name,
                        "normal": normal,
                    },
                )
                continue
''', '''            where = (hit.geometry, container, adjacent)
            if surface.is_reflected(local_ray, *where):
                event = Event.REFLECT
                local_ray = surface.reflect(local_ray, *where)
            else:
                event = Event.TRANSMIT
                local_ray = surface.transmit(local_ray, *where)
            ray = local_ray.representation(hit, scene.root)
            yield (
                ray,
                event,
                {
                    "hit": hit.name,
                    "container": container.name,
                    "adjacent": None if adjacent is None else adjacent.name,
                    "normal": normal,
                },
            )
        count += 1
        info = next_hit(scene, ray)
'''),
)

group("kernel-a",
  (K, '''cdef inline double interp_clamped(''', '''cdef inline void advance(double* pos, double* direction, double distance) noexcept nogil:
    cdef int i
    for i in range(3):
        pos[i] += direction[i] * distance


cdef inline double interp_clamped('''),
  (K, '''            for i in range(3):
                pos[i] = pos[i] + direction[i] * t0
            travelled += t0
            duration += t0 * n_container / C_CM_PER_S
            record(elog, base, &nevents, EV_EXIT''', '''            advance(pos, direction, t0)
            travelled += t0
            duration += t0 * n_container / C_CM_PER_S
            record(elog, base, &nevents, EV_EXIT'''),
  (K, '''            for i in range(3):
                pos[i] = pos[i] + direction[i] * depth
''', '''            advance(pos, direction, depth)
'''),
  (K, '''        # --- surface interaction --------------------------------------
        for i in range(3):
            pos[i] = pos[i] + direction[i] * t0
''', '''        # --- surface interaction --------------------------------------
        advance(pos, direction, t0)
'''),
  (K, '''cdef int trace_one(
''', '''cdef inline double absorption_at(SceneT* S, int comp, double wavelength) noexcept nogil:
    return interp_clamped(
        wavelength,
        S.abs_x + S.abs_start[comp],
        S.abs_y + S.abs_start[comp],
        S.abs_n[comp],
    )


cdef inline int crossed_once(int n, int skip, int* node_hits, double* node_min_t) noexcept nogil:
    """Nearest node crossed exactly once, other than `skip`; -1 if none."""
    cdef int node, found = -1
    cdef double best = INFINITY
    for node in range(n):
        if node == skip or node_hits[node] != 1:
            continue
        if node_min_t[node] < best:
            best = node_min_t[node]
            found = node
    return found


cdef int trace_one(
'''),
  (K, '''            alpha += interp_clamped(
                wavelength,
                S.abs_x + S.abs_start[comp],
                S.abs_y + S.abs_start[comp],
                S.abs_n[comp],
            )
''', '''            alpha += absorption_at(S, comp, wavelength)
'''),
  (K, '''                running += interp_clamped(
                    wavelength,
                    S.abs_x + S.abs_start[cbase + k],
                    S.abs_y + S.abs_start[cbase + k],
                    S.abs_n[cbase + k],
                )
''', '''                running += absorption_at(S, cbase + k, wavelength)
'''),
  (K, '''            container = -1
            best = INFINITY
            for node in range(S.n_nodes):
                if node_hits[node] == 1 and node_min_t[node] < best:
                    best = node_min_t[node]
                    container = node
            if container < 0:
''', '''            container = crossed_once(S.n_nodes, -1, node_hits, node_min_t)
            if container < 0:
'''),
  (K, '''                adjacent = -1
                best = INFINITY
                for node in range(S.n_nodes):
                    if node != hit and node_hits[node] == 1 and node_min_t[node] < best:
                        best = node_min_t[node]
                        adjacent = node
                if adjacent < 0:
''', '''                adjacent = crossed_once(S.n_nodes, hit, node_hits, node_min_t)
                if adjacent < 0:
'''),
  (K, '''        first = 0
        for i in range(1, nhits):
            if hit_t[i] < hit_t[first]:
                first = i
        second = -1
        for i in range(nhits):
            if i != first:
                if second < 0 or hit_t[i] < hit_t[second]:
                    second = i
''', '''        first = 0
        second = -1
        for i in range(1, nhits):
            if hit_t[i] < hit_t[first]:
                second = first
                first = i
            elif second < 0 or hit_t[i] < hit_t[second]:
                second = i
'''),
)

group("kernel-b",
  (K, '''    cdef double lo, hi, t1, t2, inv, tmp
    cdef double tmin''', '''    cdef double half, t1, t2, near, far
    cdef double tmin'''),
  (K, '''        lo = -0.5 * params[axis]
        hi = 0.5 * params[axis]
        if fabs(d[axis]) < 1e-300:
            if o[axis] < lo or o[axis] > hi:
                return 0
        else:
            inv = 1.0 / d[axis]
            t1 = (lo - o[axis]) * inv
            t2 = (hi - o[axis]) * inv
            if t1 > t2:
                tmp = t1
                t1 = t2
                t2 = tmp
            if t1 > tmin:
                tmin = t1
            if t2 < tmax:
                tmax = t2
''', '''        half = 0.5 * params[axis]
        if fabs(d[axis]) < 1e-300:
            if o[axis] < -half or o[axis] > half:
                return 0
            continue
        t1 = (-half - o[axis]) / d[axis]
        t2 = (half - o[axis]) / d[axis]
        near = t1 if t1 < t2 else t2
        far = t2 if t1 < t2 else t1
        tmin = near if near > tmin else tmin
        tmax = far if far < tmax else tmax
'''),
  (K, '''    cdef double sq, t
    cdef int n = 0
    if disc < 0.0:
        return 0
    sq = sqrt(disc)
    t = (-b - sq) / (2.0 * a)
    if t > EPS:
        ts[n] = t
        n += 1
    t = (-b + sq) / (2.0 * a)
    if t > EPS:
        ts[n] = t
        n += 1
    return n
''', '''    cdef double sq, t
    cdef int n = 0, sign
    if disc >= 0.0:
        sq = sqrt(disc)
        for sign in range(-1, 2, 2):
            t = (-b + sign * sq) / (2.0 * a)
            if t > EPS:
                ts[n] = t
                n += 1
    return n
'''),
  (K, '''            sq = sqrt(disc)
            t = (-b - sq) / (2.0 * a)
            z = o[2] + t * d[2]
            if z > -half and z < half:
                cand[ncand] = t
                ncand += 1
            t = (-b + sq) / (2.0 * a)
            z = o[2] + t * d[2]
            if z > -half and z < half:
                cand[ncand] = t
                ncand += 1
    if fabs(d[2]) > 1e-300:
        t = (-half - o[2]) / d[2]
        x = o[0] + t * d[0]
        y = o[1] + t * d[1]
        if x * x + y * y <= radius * radius:
            cand[ncand] = t
            ncand += 1
        t = (half - o[2]) / d[2]
        x = o[0] + t * d[0]
        y = o[1] + t * d[1]
        if x * x + y * y <= radius * radius:
            cand[ncand] = t
            ncand += 1
''', '''            sq = sqrt(disc)
            for i in range(2):
                t = (-b + (sq if i == 1 else -sq)) / (2.0 * a)
                z = o[2] + t * d[2]
                if fabs(z) < half:
                    cand[ncand] = t
                    ncand += 1
    if fabs(d[2]) > 1e-300:
        for i in range(2):
            t = ((half if i == 1 else -half) - o[2]) / d[2]
            x = o[0] + t * d[0]
            y = o[1] + t * d[1]
            if x * x + y * y <= radius * radius:
                cand[ncand] = t
                ncand += 1
'''),
  (K, '''    cdef double best, dist, mag, half, r
    cdef int axis, best_axis, best_sign, sign
    if gtype == GEOM_BOX:
        best = INFINITY
        best_axis = 0
        best_sign = 1
        for axis in range(3):
            for sign in range(-1, 2, 2):
                dist = fabs(p[axis] - sign * 0.5 * params[axis])
                if dist < best:
                    best = dist
                    best_axis = axis
                    best_sign = sign
        out[0] = 0.0
        out[1] = 0.0
        out[2] = 0.0
        out[best_axis] = <double>best_sign
''', '''    cdef double best, dist, mag, half, r
    cdef int axis, best_axis
    if gtype == GEOM_BOX:
        best = INFINITY
        best_axis = 0
        for axis in range(3):
            out[axis] = 0.0
            dist = fabs(fabs(p[axis]) - 0.5 * params[axis])
            if dist < best:
                best = dist
                best_axis = axis
        out[best_axis] = 1.0 if p[best_axis] > 0.0 else -1.0
'''),
  (K, '''    cdef double n[3]
    cdef double dd
    cdef int i
    for i in range(3):
        n[i] = normal[i]
    if dot3(n, d) < 0.0:
        for i in range(3):
            n[i] = -n[i]
    dd = dot3(n, d)
    for i in range(3):
        out[i] = d[i] - 2.0 * dd * n[i]
''', '''    cdef double dd = dot3(normal, d)
    cdef int i
    # the sign of the normal cancels
    for i in range(3):
        out[i] = d[i] - 2.0 * dd * normal[i]
'''),
  (K, '''    if not (value >= lo and value < hi):
        return -1
    index = <int>((value - lo) / (hi - lo) * n)
    if index >= n:  # the product may round up to n
        index = n - 1
    return index
''', '''    if value >= lo and value < hi:
        index = <int>((value - lo) / (hi - lo) * n)
        # the product may round up to n
        return index if index < n else n - 1
    return -1
'''),
  (K, '''        if mu > 1.0:  # rounding, when g is small
            mu = 1.0
        elif mu < -1.0:
            mu = -1.0
        phi = 2.0 * M_PI * rng_uniform(rng)
        theta = acos(mu)
''', '''        # rounding, when g is small
        theta = acos(1.0 if mu > 1.0 else (-1.0 if mu < -1.0 else mu))
        phi = 2.0 * M_PI * rng_uniform(rng)
'''),
  (K, '''cdef inline void tally(SceneT''', '''cdef inline bint facet_matches(SceneT* S, int r, double* wnormal) noexcept nogil:
    cdef int axis
    if S.rec_has_facet[r] == 0:
        return True
    if wnormal == NULL:
        return False
    for axis in range(3):
        if fabs(S.rec_facet[r * 3 + axis] - wnormal[axis]) > S.rec_atol[r]:
            return False
    return True


cdef inline void tally(SceneT'''),
  (K, '''        if S.rec_has_facet[r] != 0:
            if wnormal == NULL:
                continue
            if fabs(S.rec_facet[r * 3] - wnormal[0]) > S.rec_atol[r]:
                continue
            if fabs(S.rec_facet[r * 3 + 1] - wnormal[1]) > S.rec_atol[r]:
                continue
            if fabs(S.rec_facet[r * 3 + 2] - wnormal[2]) > S.rec_atol[r]:
                continue
        cross[r] += 1
''', '''        if not facet_matches(S, r, wnormal):
            continue
        cross[r] += 1
'''),
  (K, '''            if S.h_prop_b[h] < 0:
                bins[S.h_offset[h] + ia] += 1
            else:
                vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                travelled, lpos)
                ib = bin_index(vb, S.h_lo_b[h], S.h_hi_b[h], S.h_nb[h])
                if ib < 0:
                    continue
                bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
''', '''            if S.h_prop_b[h] >= 0:
                vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                travelled, lpos)
                ib = bin_index(vb, S.h_lo_b[h], S.h_hi_b[h], S.h_nb[h])
                if ib < 0:
                    continue
                ia = ia * S.h_nb[h] + ib
            bins[S.h_offset[h] + ia] += 1
'''),
  (K, '''    if base < 0 or count[0] >= elog.max_events:
        return
    row = base + count[0]
''', '''    if base < 0:
        return
    if count[0] >= elog.max_events:
        return
    row = base + count[0]
'''),
  (K, '''            if record_every > 0 and i % record_every == 0:
                base = (i // record_every) * max_events
            else:
                base = -1
''', '''            base = -1
            if record_every > 0 and i % record_every == 0:
                base = (i // record_every) * max_events
'''),
)

SP = "pvtrace/geometry/sphere.py"
CY = "pvtrace/geometry/cylinder.py"
group("geometry-a",
  (SP, '''        r = np.sqrt(np.sum(np.array(point) ** 2))
        return np.abs(r - self.radius) < EPS_ZERO
''', '''        return np.abs(self._distance(point) - self.radius) < EPS_ZERO

    def _distance(self, point):
        x, y, z = point
        return np.sqrt(x * x + y * y + z * z)
'''),
  (SP, '''        r = np.sqrt(np.sum(np.array(point) ** 2))
        return self.radius - (r + EPS_ZERO) > 0.0
''', '''        return self._distance(point) + EPS_ZERO < self.radius
'''),
  (SP, '''        if discriminant == 0.0:
            t = np.array([-b / (2 * a)])
        else:
            t = np.array(
                [
                    (-b - np.sqrt(discriminant)) / (2 * a),
                    (-b + np.sqrt(discriminant)) / (2 * a),
                ]
            )
        t = np.sort(t)
        hits = []
        for distance in t:
            if distance >= 0.0:
                point = origin + distance * direction
                hits.append(tuple(point.tolist()))
        return tuple(hits)
''', '''        if discriminant == 0.0:
            distances = [-b / (2 * a)]
        else:
            root = np.sqrt(discriminant)
            distances = sorted([(-b - root) / (2 * a), (-b + root) / (2 * a)])
        return tuple(
            tuple((origin + distance * direction).tolist())
            for distance in distances
            if distance >= 0.0
        )
'''),
  (SP, '''        if np.dot(normal, direction) < 0.0:
            return True
        return False
''', '''        return bool(np.dot(normal, direction) < 0.0)
'''),
  (CY, '''        side = np.sqrt(np.sum(np.array(point[:2]) ** 2)) - self.radius
        cap = np.abs(point[2]) - 0.5 * self.length
        if side > 0.0 and cap > 0.0:
            dist = np.sqrt(side ** 2 + cap ** 2)
        else:
            dist = max(side, cap)
        return bool(close_to_zero(dist))
''', '''        x, y, z = point
        side = np.hypot(x, y) - self.radius
        cap = abs(z) - 0.5 * self.length
        dist = np.hypot(side, cap) if side > 0.0 and cap > 0.0 else max(side, cap)
        return bool(close_to_zero(dist))
'''),
  (CY, '''        if z < 0.5 * self.length and r < self.radius:
            return True
        return False
''', '''        return bool(z < 0.5 * self.length and r < self.radius)
'''),
  (CY, '''        z = surface_point[2]
        if np.isclose(z, -0.5 * self.length):
            return (0.0, 0.0, -1.0)
        elif np.isclose(z, 0.5 * self.length):
            return (0.0, 0.0, 1.0)
        elif np.isclose(self.radius, np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))):
            v = np.array(surface_point) - np.array([0.0, 0.0, surface_point[2]])
            n = tuple(norm(v).tolist())
            return n
        else:
            raise GeometryError("Not a surface point.")
''', '''        x, y, z = surface_point
        half = 0.5 * self.length
        if np.isclose(z, -half):
            return (0.0, 0.0, -1.0)
        if np.isclose(z, half):
            return (0.0, 0.0, 1.0)
        if not np.isclose(self.radius, np.sqrt(x * x + y * y)):
            raise GeometryError("Not a surface point.")
        return tuple(norm(np.array([x, y, 0.0])).tolist())
'''),
)

C = "pvtrace/material/component.py"
D = "pvtrace/material/distribution.py"
M = "pvtrace/material/material.py"
S = "pvtrace/material/surface.py"
U = "pvtrace/material/utils.py"
group("material-a",
  (C, '''            delay = -np.log(1 - np.random.uniform()) * self.tau_nr
            return replace(ray, duration=ray.duration + delay)
        return ray

    def emit(self, ray: Ray, **kwargs)''', '''            ray = replace(ray, duration=ray.duration + self._delay(self.tau_nr))
        return ray

    @staticmethod
    def _delay(tau):
        """Time drawn from a single exponential with time constant `tau`."""
        return -np.log(1 - np.random.uniform()) * tau

    def emit(self, ray: Ray, **kwargs)'''),
  (C, '''            emission_delay = -np.log(1 - np.random.uniform()) * self.tau_rad
''', '''            emission_delay = self._delay(self.tau_rad)
'''),
  (C, '''            eV = 1240.0 / nm
            eV = eV + 3 / 2 * kB * T  # Assumes 3 dimensional degrees of freedom
            nm = 1240.0 / eV
            p1 = dist.lookup(nm)
''', '''            # Assumes 3 dimensional degrees of freedom
            nm = 1240.0 / (1240.0 / nm + 1.5 * kB * T)
            p1 = dist.lookup(nm)
'''),
  (C, '''        p2 = 1.0
        gamma = np.random.uniform(p1, p2)
        wavelength = dist.sample(gamma)
        if method != "full":
            # A histogram spectrum can return a bin that lies before the window
            wavelength = max(wavelength, nm)
''', '''        wavelength = dist.sample(np.random.uniform(p1, 1.0))
        # A histogram spectrum can return a bin that lies before the window
        if method != "full" and wavelength < nm:
            wavelength = nm
'''),
  (M, '''        coefs = [x.coefficient(wavelength) for x in self.components]
        alpha = np.sum(coefs)
        return alpha
''', '''        alpha = 0.0
        for component in self.components:
            alpha += component.coefficient(wavelength)
        return alpha
'''),
  (M, '''        cdf = np.cumsum(coefs)
        cdf = cdf / max(cdf)
        # Invert exactly: interpolating and flooring can round to the next index
        index = int(np.searchsorted(cdf, np.random.uniform(), side="right"))
        component = self.components[index]
        return component
''', '''        cdf = np.cumsum(coefs)
        cdf = cdf / cdf[-1]
        # Invert exactly: interpolating and flooring can round to the next index
        draw = np.random.uniform()
        for component, upper in zip(self.components, cdf):
            if draw < upper:
                return component
'''),
  (D, '''            idx = np.searchsorted(self._cdf, p)
            return self._x[np.minimum(idx, len(self._x) - 1)]
''', '''            last = len(self._x) - 1
            return self._x[np.minimum(np.searchsorted(self._cdf, p), last)]
'''),
  (D, '''            xval = np.interp(p, self._cdf, self._x, left=np.nan, right=np.nan)
            if xval.size == 1:
                xval = xval.tolist()  # actually a float
            return xval
''', '''            return self._plain(
                np.interp(p, self._cdf, self._x, left=np.nan, right=np.nan)
            )

    @staticmethod
    def _plain(value):
        return value.tolist() if value.size == 1 else value
'''),
  (D, '''            prob = np.interp(x, self._x, self._cdf, left=np.nan, right=np.nan)
            if prob.size == 1:
                prob = prob.tolist()  # actually a float
            return prob
''', '''            return self._plain(
                np.interp(x, self._x, self._cdf, left=np.nan, right=np.nan)
            )
'''),
  (D, '''                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                cdf = cdf / np.max(cdf)
                cdf = np.hstack([0.0, cdf])
                self._cdf = cdf
''', '''                areas = 0.5 * np.diff(x) * (y[1:] + y[:-1])
                cdf = np.concatenate(([0.0], np.cumsum(areas)))
                self._cdf = cdf / cdf[-1]
'''),
  (S, '''        # Be tolerance with definition of surface normal
        normal = geometry.normal(ray.position)
        if np.dot(normal, ray.direction) < 0.0:
            normal = flip(normal)
        angle = angle_between''', '''        normal = self._forward_normal(ray, geometry)
        angle = angle_between'''),
  (S, '''        # Be tolerance with definition of surface normal
        normal = geometry.normal(ray.position)
        if np.dot(normal, ray.direction) < 0.0:
            normal = flip(normal)
        refracted''', '''        normal = self._forward_normal(ray, geometry)
        refracted'''),
  (S, '''    """ Fresnel reflection and refraction on the surface.
    """
''', '''    """ Fresnel reflection and refraction on the surface.
    """

    def _forward_normal(self, ray, geometry):
        # Be tolerance with definition of surface normal
        normal = geometry.normal(ray.position)
        if np.dot(normal, ray.direction) < 0.0:
            normal = flip(normal)
        return normal
'''),
  (S, '''        gamma = np.random.uniform()
        return gamma < r
''', '''        return np.random.uniform() < r
'''),
  (U, '''    direction = np.array(direction)
    normal = np.array(normal)
    if np.dot(normal, direction) < 0.0:
        normal = flip(normal)
    d = np.dot(normal, direction)
    reflected_direction = direction - 2 * d * normal
    return reflected_direction
''', '''    direction = np.array(direction)
    normal = np.array(normal)
    # the orientation of the normal does not matter
    return direction - 2 * np.dot(normal, direction) * normal
'''),
  (U, '''    sign = 1
    if dot < 0.0:
        sign = -1
    refracted_direction = n * vector + sign * (c - sign * n * dot) * normal
    return refracted_direction
''', '''    if dot < 0.0:
        return n * vector - (c + n * dot) * normal
    return n * vector + (c - n * dot) * normal
'''),
  (U, '''    # Catch TIR case
    if n2 < n1 and angle > np.arcsin(n2 / n1):
        return 1.0
    c = np.cos(angle)
    s = np.sin(angle)
    k = np.sqrt(1 - (n1 / n2 * s) ** 2)
    Rs1 = n1 * c - n2 * k
    Rs2 = n1 * c + n2 * k
    Rs = (Rs1 / Rs2) ** 2
    Rp1 = n1 * k - n2 * c
    Rp2 = n1 * k + n2 * c
    Rp = (Rp1 / Rp2) ** 2
    r = 0.5 * (Rs + Rp)
    return r
''', '''    # Catch TIR case
    if n1 > n2:
        critical = np.arcsin(n2 / n1)
        if angle > critical:
            return 1.0
    cos_i = np.cos(angle)
    cos_t = np.sqrt(1 - (n1 / n2 * np.sin(angle)) ** 2)

    def ratio(a, b):
        return ((a - b) / (a + b)) ** 2

    return 0.5 * (
        ratio(n1 * cos_i, n2 * cos_t) + ratio(n1 * cos_t, n2 * cos_i)
    )
'''),
  (U, '''    g1, g2 = np.random.uniform(0, 1, 2)
    phi = 2 * np.pi * g1
    mu = 2 * g2 - 1  # mu = cos(theta)
    theta = np.arccos(mu)
    coords = spherical_to_cart(theta, phi)
    return coords
''', '''    g1, g2 = np.random.uniform(0, 1, 2)
    theta = np.arccos(2 * g2 - 1)
    return spherical_to_cart(theta, 2 * np.pi * g1)
'''),
)

L = "pvtrace/light/light.py"
R = "pvtrace/light/ray.py"
E = "pvtrace/engine/emit.py"
group("light-a",
  (L, '''    return (np.random.uniform(-X, X), np.random.uniform(-Y, Y), 0.0)
''', '''    x = np.random.uniform(-X, X)
    y = np.random.uniform(-Y, Y)
    return (x, y, 0.0)
'''),
  (L, '''    return (
        np.random.uniform(-X, X),
        np.random.uniform(-Y, Y),
        np.random.uniform(-Z, Z),
    )
''', '''    return tuple(np.random.uniform(-half, half) for half in (X, Y, Z))
'''),
  (L, '''        count = 0
        while True:
            count += 1
            if num_rays is not None and count > num_rays:
                break

            try:
                ray = Ray(
                    wavelength=self.wavelength(),
                    position=self.position(),
                    direction=self.direction(),
                    source=self.name,
                )
            except Exception:
                raise
            yield ray
''', '''        for _ in range(num_rays):
            yield Ray(
                wavelength=self.wavelength(),
                position=self.position(),
                direction=self.direction(),
                source=self.name,
            )
'''),
  (R, '''        new_position = np.array(self.position) + np.array(self.direction) * distance
        new_position = tuple(new_position.tolist())
        new_ray = replace(
            self,
            position=new_position,
            travelled=self.travelled + distance,
            duration=self.duration
            + distance * refractive_index / speed_of_light_cm_per_s,
        )
        return new_ray
''', '''        delay = distance * refractive_index / speed_of_light_cm_per_s
        new_position = tuple(
            float(p) + float(d) * distance
            for p, d in zip(self.position, self.direction)
        )
        return replace(
            self,
            position=new_position,
            travelled=self.travelled + distance,
            duration=self.duration + delay,
        )
'''),
  (R, '''        new_ray = replace(self, position=new_position, direction=new_direction)
        return new_ray
''', '''        return replace(self, position=new_position, direction=new_direction)
'''),
  (E, '''        angle = np.random.uniform(0, 2 * np.pi, n)
        radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
        return np.column_stack(
            (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
        )
''', '''        out = np.zeros((n, 3))
        angle = np.random.uniform(0, 2 * np.pi, n)
        radius = delegate.radius * np.sqrt(np.random.uniform(0, 1, n))
        out[:, 0] = radius * np.cos(angle)
        out[:, 1] = radius * np.sin(angle)
        return out
'''),
  (E, '''        theta = np.arcsin(
            np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
        )
        phi = 2 * np.pi * np.random.uniform(0, 1, n)
        return _sphere_directions(theta, phi)
    if delegate is isotropic:
        phi = 2 * np.pi * np.random.uniform(0, 1, n)
        theta = np.arccos(2 * np.random.uniform(0, 1, n) - 1)
        return _sphere_directions(theta, phi)
    if delegate is lambertian:
        theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
        phi = 2 * np.pi * np.random.uniform(0, 1, n)
        return _sphere_directions(theta, phi)
''', '''        return _cone_directions(np.sin(delegate.theta_max), n)
    if delegate is isotropic:
        phi = 2 * np.pi * np.random.uniform(0, 1, n)
        theta = np.arccos(2 * np.random.uniform(0, 1, n) - 1)
        return _sphere_directions(theta, phi)
    if delegate is lambertian:
        return _cone_directions(1.0, n)
'''),
  (E, '''def _sample_wavelengths(''', '''def _cone_directions(sin_theta_max, n):
    theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)) * sin_theta_max)
    phi = 2 * np.pi * np.random.uniform(0, 1, n)
    return _sphere_directions(theta, phi)


def _sample_wavelengths('''),
  (E, '''        matrix = np.asarray(node.transformation_to(scene.root))
        rotation = matrix[:3, :3]
        translation = matrix[:3, 3]
        positions[rows] = pos @ rotation.T + translation
        directions[rows] = direction @ rotation.T
''', '''        matrix = np.asarray(node.transformation_to(scene.root))
        positions[rows] = np.dot(pos, matrix[:3, :3].T) + matrix[:3, 3]
        directions[rows] = np.dot(direction, matrix[:3, :3].T)
'''),
)

SC = "pvtrace/scene/scene.py"
N = "pvtrace/scene/node.py"
group("scene-a",
  (SC, '''    results = []
    for ray in scene.emit(num_rays):
        ray_history = photon_tracer.follow(scene, ray)
        results.append(ray_history)
    return results
''', '''    return [photon_tracer.follow(scene, ray) for ray in scene.emit(num_rays)]
'''),
  (SC, '''    elif event in (Event.REFLECT, Event.TRANSMIT):
        if metadata["hit"] == metadata["adjacent"] and event == Event.REFLECT:
            return True  # reflected from node
        elif metadata["hit"] == metadata["adjacent"] and event == Event.TRANSMIT:
            return True  # transmitted into node
        elif metadata["hit"] == metadata["container"] and event == Event.TRANSMIT:
            return True  # escaped node
    return False
''', '''    if event not in (Event.REFLECT, Event.TRANSMIT):
        return False
    if metadata["hit"] == metadata["adjacent"]:
        return True  # reflected from node, or transmitted into it
    # escaped node
    return event == Event.TRANSMIT and metadata["hit"] == metadata["container"]
'''),
  (SC, '''    for idx, ray in enumerate(scene.emit(num_rays)):
        count = count + 1
        for info in photon_tracer.step_forward(scene, ray):
            ray, event, metadata = info
            if end_rays:
                if is_end_ray(event, metadata):
                    queue.put((key, idx, ray, event, metadata))
            else:
                queue.put((key, idx, ray, event, metadata))
''', '''    for idx, thrown in enumerate(scene.emit(num_rays)):
        for ray, event, metadata in photon_tracer.step_forward(scene, thrown):
            if not end_rays or is_end_ray(event, metadata):
                queue.put((key, idx, ray, event, metadata))
'''),
  (SC, '''    count = 0
    pid = os.getpid()
''', '''    pid = os.getpid()
'''),
  (SC, '''        root = self.root
        found_nodes = []
        for node in LevelOrderIter(root):
            if isinstance(node.light, Light):
                found_nodes.append(node)
        return found_nodes
''', '''        return [
            node for node in LevelOrderIter(self.root) if isinstance(node.light, Light)
        ]
'''),
  (SC, '''        for idx in range(num_rays):
            light = lights[idx % len(lights)]
            for ray in light.emit(1):
                yield ray.representation(light, self.root)
''', '''        turn = 0
        for _ in range(num_rays):
            node = lights[turn]
            turn = (turn + 1) % len(lights)
            for local_ray in node.emit(1):
                yield local_ray.representation(node, self.root)
'''),
  (SC, '''        def distance_sort_key(i):
            v = np.array(i.point) - np.array(ray_origin)
            d = np.linalg.norm(v)
            return d
''', '''        def distance_sort_key(i):
            return np.linalg.norm(np.subtract(i.point, ray_origin))
'''),
  (SC, '''        # Convert intersection point to root frame/node.
        all_intersections = map(lambda x: x.to(root), all_intersections)
        # Filter for forward intersections only
        all_intersections = tuple(
            filter(
                lambda x: intersection_point_is_ahead(
                    ray_origin, ray_direction, x.point
                ),
                all_intersections,
            )
        )

        # Sort by distance to ray
        all_intersections = tuple(sorted(all_intersections, key=distance_sort_key))
''', '''        # Convert intersection point to root frame/node and keep the forward ones
        ahead = []
        for intersection in all_intersections:
            intersection = intersection.to(root)
            if intersection_point_is_ahead(
                ray_origin, ray_direction, intersection.point
            ):
                ahead.append(intersection)

        # Sort by distance to ray
        ahead.sort(key=distance_sort_key)
        all_intersections = tuple(ahead)
'''),
  (SC, '''        if workers == 1:
            if queue:
                return do_simulation_add_to_queue(self, num_rays, seed, queue, end_rays)
            return do_simulation(self, num_rays, seed)

        num_rays_per_worker = num_rays // workers
        if num_rays_per_worker == 0:
            if queue:
                return do_simulation_add_to_queue(self, num_rays, seed, queue, end_rays)
            return do_simulation(self, num_rays, seed)

        if num_rays_per_worker * workers < num_rays:
            remainder = num_rays % (num_rays_per_worker * workers)
        else:
            remainder = (num_rays_per_worker * workers) % num_rays
''', '''        if workers == 1 or num_rays < workers:
            if queue:
                return do_simulation_add_to_queue(self, num_rays, seed, queue, end_rays)
            return do_simulation(self, num_rays, seed)

        num_rays_per_worker, remainder = divmod(num_rays, workers)
'''),
  (SC, '''        results = []
        for result in results_proxy:
            histories = result.get()
            for history in histories:
                results.append(history)
        return results
''', '''        results = []
        for result in results_proxy:
            results.extend(result.get())
        return results
'''),
  (N, '''        a = np.array([0, 0, 1])  # +z direction
        b = np.array(vector) / np.linalg.norm(vector)  # direction we want to face
        c = np.dot(a, b)
        v = np.cross(a, b)
        length = np.linalg.norm(v)
        if length == 0.0:
            if c < 0.0:
                # Anti-parallel rotation can be done without computation
                self.rotate(np.pi, [0, 1, 0])
            return
        self.rotate(np.arctan2(length, c), v)
''', '''        forward = np.array([0.0, 0.0, 1.0])
        target = np.asarray(vector, dtype=float)
        target = target / np.linalg.norm(target)  # direction we want to face
        axis = np.cross(forward, target)
        sine, cosine = np.linalg.norm(axis), np.dot(forward, target)
        if sine > 0.0:
            self.rotate(np.arctan2(sine, cosine), axis)
        elif cosine < 0.0:
            # Anti-parallel rotation can be done without computation
            self.rotate(np.pi, [0, 1, 0])
'''),
  (N, '''        transforms = tuple(map(lambda x: x.pose, upwards))
        transforms = transforms + tuple(map(lambda x: np.linalg.inv(x.pose), downwards))
        if len(transforms) == 1:
            transform = transforms[0]
        else:
            transform = np.linalg.multi_dot(transforms[::-1])
        return transform
''', '''        transform = np.identity(4)
        for step in upwards:
            transform = np.dot(step.pose, transform)
        for step in downwards:
            transform = np.dot(np.linalg.inv(step.pose), transform)
        return transform
'''),
  (N, '''        mat = self.transformation_to(node)
        homogeneous_pt = np.ones(4)
        homogeneous_pt[0:3] = point
        new_pt = np.dot(mat, homogeneous_pt)[0:3]
        new_pt = tuple(new_pt)
        return new_pt
''', '''        mat = self.transformation_to(node)
        x, y, z = point
        return tuple(np.dot(mat, np.array([x, y, z, 1.0]))[:3])
'''),
  (N, '''        mat = self.transformation_to(node)[0:3, 0:3]
        new_vec = tuple(np.dot(mat, np.array(tuple(vector)))[0:3])
        return new_vec
''', '''        rotation = self.transformation_to(node)[:3, :3]
        return tuple(rotation @ np.array(tuple(vector)))
'''),
  (N, '''        all_intersections = []
        if self.geometry is not None:
            points = self.geometry.intersections(ray_origin, ray_direction)
            for point in points:
                intersection = Intersection(
                    coordsys=self,
                    point=point,
                    hit=self,
                    distance=distance_between(ray_origin, point),
                )
                all_intersections.append(intersection)
        all_intersections = tuple(all_intersections)
''', '''        all_intersections = ()
        if self.geometry is not None:
            all_intersections = tuple(
                Intersection(
                    coordsys=self,
                    point=point,
                    hit=self,
                    distance=distance_between(ray_origin, point),
                )
                for point in self.geometry.intersections(ray_origin, ray_direction)
            )
'''),
  (N, '''        for ray in self.light.emit(num_rays=num_rays):
            yield ray
''', '''        yield from self.light.emit(num_rays=num_rays)
'''),
)

CO = "pvtrace/engine/compiler.py"
T = "pvtrace/engine/tally.py"
A = "pvtrace/engine/api.py"
group("engine-a",
  (CO, '''        # Component table columns
        if comp_rows:
            rows = np.array(comp_rows, dtype=np.float64)
        else:
            rows = np.zeros((0, 10), dtype=np.float64)
''', '''        # Component table columns
        rows = np.array(comp_rows, dtype=np.float64).reshape(-1, 10)
'''),
  (CO, '''        recorders = []
        for i, node in enumerate(nodes):
            for recorder in getattr(node, "recorders", []):
                if not isinstance(recorder, Recorder):
                    raise UnsupportedSceneError(
                        f"Node {node.name!r} recorders must be Recorder objects."
                    )
                if recorder.event in VOLUME_EVENTS and recorder.facet is not None:
                    raise UnsupportedSceneError(
                        f"Recorder {recorder.name!r}: facet filters only apply "
                        "to surface events."
                    )
                recorders.append((i, recorder))
''', '''        recorders = [
            (i, recorder)
            for i, node in enumerate(nodes)
            for recorder in getattr(node, "recorders", [])
        ]
        for i, recorder in recorders:
            self._check_recorder(nodes[i], recorder)
'''),
  (CO, '''    # -- geometry ------------------------------------------------------
''', '''    @staticmethod
    def _check_recorder(node, recorder):
        if not isinstance(recorder, Recorder):
            raise UnsupportedSceneError(
                f"Node {node.name!r} recorders must be Recorder objects."
            )
        if recorder.event in VOLUME_EVENTS and recorder.facet is not None:
            raise UnsupportedSceneError(
                f"Recorder {recorder.name!r}: facet filters only apply "
                "to surface events."
            )

    # -- geometry ------------------------------------------------------
'''),
  (CO, '''                if isinstance(hist, Heatmap):
                    a, b = hist.a, hist.b
                    h_rows.append(
                        [PROPERTIES[a.prop], PROPERTIES[b.prop], a.bins, b.bins,
                         a.start, a.stop, b.start, b.stop, offset]
                    )
                    offset += a.bins * b.bins
                else:
                    h_rows.append(
                        [PROPERTIES[hist.prop], -1, hist.bins, 1,
                         hist.start, hist.stop, 0.0, 1.0, offset]
                    )
                    offset += hist.bins
''', '''                if isinstance(hist, Heatmap):
                    a, b = hist.a, hist.b
                    prop_b, nb, lo_b, hi_b = PROPERTIES[b.prop], b.bins, b.start, b.stop
                else:
                    a = hist
                    prop_b, nb, lo_b, hi_b = -1, 1, 0.0, 1.0
                h_rows.append(
                    [PROPERTIES[a.prop], prop_b, a.bins, nb,
                     a.start, a.stop, lo_b, hi_b, offset]
                )
                offset += a.bins * nb
'''),
  (CO, '''        phase_type, phase_param = self._phase_tag(node, component)

        a_start, a_n = self._compile_distribution(
            node, component._abs_dist, abs_x, abs_y
        )
''', '''        a_start, a_n = self._compile_distribution(
            node, component._abs_dist, abs_x, abs_y
        )
        phase_type, phase_param = self._phase_tag(node, component)
'''),
  (CO, '''        tau_rad = component.tau_rad if component.tau_rad else 0.0
        tau_nr = component.tau_nr if component.tau_nr else 0.0
''', '''        tau_rad = component.tau_rad or 0.0
        tau_nr = component.tau_nr or 0.0
'''),
  (CO, '''        if dist._x is None:
            # Constant coefficient
            xs.append(0.0)
            ys.append(float(dist._y))
            return start, 1
        xs.extend(np.asarray(dist._x, dtype=np.float64).tolist())
        ys.extend(np.asarray(dist._y, dtype=np.float64).tolist())
        return start, len(xs) - start
''', '''        # A constant coefficient is a table of one row
        x = [0.0] if dist._x is None else dist._x
        y = [dist._y] if dist._x is None else dist._y
        for a, b in zip(x, y):
            xs.append(float(a))
            ys.append(float(b))
        return start, len(xs) - start
'''),
  (T, '''    name = node.name
    kind = recorder.event
    if event == Event.TRANSMIT and metadata.get("hit") == name:
        if kind == "entering":
            return metadata.get("adjacent") == name
        if kind == "escaping":
            return metadata.get("container") == name
        return False
    if event == Event.REFLECT and kind == "reflected":
        return (metadata.get("hit") == name
                and metadata.get("adjacent") == name)
    if event == Event.NONRADIATIVE and kind == "lost":
        return metadata.get("container") == name
    if event == Event.REACT and kind == "reacted":
        return metadata.get("container") == name
    if event == Event.KILL and kind == "killed":
        return metadata.get("container") == name
    if event == Event.EXIT and kind == "exit":
        return metadata.get("hit") == name
    return False
''', '''    wanted, keys = {
        "entering": (Event.TRANSMIT, ("hit", "adjacent")),
        "escaping": (Event.TRANSMIT, ("hit", "container")),
        "reflected": (Event.REFLECT, ("hit", "adjacent")),
        "lost": (Event.NONRADIATIVE, ("container",)),
        "reacted": (Event.REACT, ("container",)),
        "killed": (Event.KILL, ("container",)),
        "exit": (Event.EXIT, ("hit",)),
    }[recorder.event]
    return event == wanted and all(metadata.get(key) == node.name for key in keys)
'''),
  (T, '''            if isinstance(hist, Heatmap):
                ia = _bin_index(values[hist.a.prop], hist.a)
                ib = _bin_index(values[hist.b.prop], hist.b)
                if ia >= 0 and ib >= 0:
                    bins[ia * hist.b.bins + ib] += 1
            else:
                index = _bin_index(values[hist.prop], hist)
                if index >= 0:
                    bins[index] += 1
''', '''            index = 0
            for axis in (hist.a, hist.b) if isinstance(hist, Heatmap) else (hist,):
                i = _bin_index(values[axis.prop], axis)
                if i < 0:
                    break
                index = index * axis.bins + i
            else:
                bins[index] += 1
'''),
  (T, '''    if not hist.start <= value < hist.stop:
        return -1
    index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
    return min(index, hist.bins - 1)  # the product may round up to `bins`
''', '''    if hist.start <= value < hist.stop:
        fraction = (value - hist.start) / (hist.stop - hist.start)
        index = int(fraction * hist.bins)
        # the product may round up to `bins`
        return index if index < hist.bins else hist.bins - 1
    return -1
'''),
  (T, '''                if recorder.facet is not None:
                    if normal is None or any(
                        abs(f - n) > recorder.atol
                        for f, n in zip(recorder.facet, normal)
                    ):
                        continue
''', '''                if not _on_facet(recorder, normal):
                    continue
'''),
  (T, '''def tally_histories(''', '''def _on_facet(recorder, normal):
    if recorder.facet is None:
        return True
    if normal is None:
        return False
    return all(
        abs(f - n) <= recorder.atol for f, n in zip(recorder.facet, normal)
    )


def tally_histories('''),
  (A, '''        for r, spec in enumerate(compiled.recorder_specs):
            bins = []
            start = compiled.rec_hist_start[r]
            for h, hist in enumerate(spec.histograms):
                offset = compiled.hist_offset[start + h]
                size = compiled.hist_na[start + h] * compiled.hist_nb[start + h]
                bins.append(self.data["rec_bins"][offset:offset + size])
''', '''        for r, spec in enumerate(compiled.recorder_specs):
            first = compiled.rec_hist_start[r]
            bins = [
                self._histogram_bins(h)
                for h in range(first, first + len(spec.histograms))
            ]
'''),
  (A, '''    def event_counts(self):
''', '''    def _histogram_bins(self, h):
        start = self.compiled.hist_offset[h]
        stop = start + self.compiled.hist_na[h] * self.compiled.hist_nb[h]
        return self.data["rec_bins"][start:stop]

    def event_counts(self):
'''),
  (A, '''        counts = self.data["counts"]
        if len(counts) == 0:
            return collections.Counter()
        kinds = self.data["kind"].reshape(self.num_recorded, self.max_events)
        mask = np.arange(self.max_events)[None, :] < counts[:, None]
        values, tallies = np.unique(kinds[mask], return_counts=True)
        return collections.Counter(
            {Event(int(v)): int(t) for v, t in zip(values, tallies)}
        )
''', '''        totals = collections.Counter()
        for j, count in enumerate(self.data["counts"]):
            base = j * self.max_events
            for kind in self.data["kind"][base:base + int(count)]:
                totals[Event(int(kind))] += 1
        return totals
'''),
  (A, '''    traced = 0
    while traced < num_rays:
        n = min(bundle, num_rays - traced)
        result = simulate(
            scene, n, seed=int(seed) + traced, first_ray=traced, **kwargs
        )
        traced += n
        yield result, traced''', '''    seed = int(seed)
    for start in range(0, num_rays, bundle):
        stop = min(start + bundle, num_rays)
        result = simulate(
            scene, stop - start, seed=seed + start, first_ray=start, **kwargs
        )
        yield result, stop'''),
)

DB = "pvtrace/cli/db.py"
MA = "pvtrace/cli/main.py"
group("cli-a",
  (DB, '''    for value, column in ((nx, "ni"), (ny, "nj"), (nz, "nk")):
        if value is not None:
            lines.append(f"AND (ABS(? - {column}) <= ?)")
            params.extend([value, atol])
    return lines, params
''', '''    for column, value in zip(("ni", "nj", "nk"), (nx, ny, nz)):
        if value is None:
            continue
        lines.append(f"AND ({column} BETWEEN ? - ? AND ? + ?)")
        params += [value, atol, value, atol]
    return lines, params
'''),
  (DB, '''    normal_lines, normal_params = _normal_clauses(nx, ny, nz, atol)
    inner.extend(normal_lines)
    params.extend(normal_params)
    if facet is not None:
        inner.append("AND facet = ?")
        params.append(facet)
    if source is not None:
        inner.append("AND source = ?")
        params.append(source)

    outer = "SELECT COUNT('throw_id')" if count else f"SELECT {columns}"
    sql = "{} FROM ( {} )".format(outer, os.linesep.join(inner))
    return sql, tuple(params)


def _volume_query''', '''    normal_lines, normal_params = _normal_clauses(nx, ny, nz, atol)
    for column, value in (("source", source), ("facet", facet)):
        if value is not None:
            inner.append(f"AND {column} = ?")
            params.append(value)
    inner += normal_lines
    params += normal_params
    return _wrap(columns, inner, count), tuple(params)


def _wrap(columns, inner, count):
    outer = "SELECT COUNT(*)" if count else f"SELECT {columns}"
    return f"{outer} FROM ( {os.linesep.join(inner)} )"


def _volume_query'''),
  (MA, '''    component = None
    hit = None
    container = None
    adjacent = None
    facet = None
    normal = (None, None, None)
    if metadata:
        component = metadata.get("component", None)
        hit = metadata.get("hit", None)
        container = metadata.get("container", None)
        adjacent = metadata.get("adjacent", None)
        facet = metadata.get("facet", None)
        normal = metadata.get("normal", (None, None, None))
''', '''    metadata = metadata or {}
    component, hit, container, adjacent, facet = (
        metadata.get(key)
        for key in ("component", "hit", "container", "adjacent", "facet")
    )
    normal = metadata.get("normal", (None, None, None))
'''),
  (MA, '''    values = (
        global_throw_id,
        ray.position[0],
        ray.position[1],
        ray.position[2],
        ray.direction[0],
        ray.direction[1],
        ray.direction[2],
        ray.wavelength,
''', '''    x, y, z = ray.position
    i, j, k = ray.direction
    values = (
        global_throw_id,
        x,
        y,
        z,
        i,
        j,
        k,
        ray.wavelength,
'''),
  (MA, '''            if pid not in counts:
                counts[pid] = throw_idx + 1

            counts[pid] = throw_idx + 1
''', '''            counts[pid] = throw_idx + 1
'''),
  (MA, '''            if (pid, throw_idx) not in global_ids:
                global_ids[(pid, throw_idx)] = len(global_ids)
''', '''            key = (pid, throw_idx)
            if key not in global_ids:
                global_ids[key] = len(global_ids)
'''),
  (MA, '''            ray_db_id = write_ray(cur, ray, global_ids[(pid, throw_idx)])
''', '''            ray_db_id = write_ray(cur, ray, global_ids[key])
'''),
)

PA = "pvtrace/cli/parse.py"
group("parse-a",
  (PA, '''        component_keys = []
        if "components" in spec:
            component_keys = spec["components"]
        for k in component_keys:
            if not (k in component_map):
                raise ValueError(f"Missing {k} component")
''', '''        component_keys = spec.get("components", [])
        for k in component_keys:
            if k not in component_map:
                raise ValueError(f"Missing {k} component")
'''),
  (PA, '''        coefficient = None
        if "coefficient" in spec:
            coefficient = spec["coefficient"]

        hist = False
        if "hist" in spec:
            hist = spec["hist"]

        spectrum = None
        if "spectrum" in spec:
            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")

        if coefficient is not None and (spectrum is not None):
            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
            return Absorber(spectrum, name=name, hist=hist)
        elif spectrum is not None:
            return Absorber(spectrum, name=name, hist=hist)
        elif coefficient is not None:
            return Absorber(coefficient, name=name)
        raise ValueError("Unexpected absorber format.")
''', '''        coefficient = spec.get("coefficient")
        hist = spec.get("hist", False)
        if "spectrum" not in spec:
            if coefficient is None:
                raise ValueError("Unexpected absorber format.")
            return Absorber(coefficient, name=name)
        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
        return Absorber(scaled(spectrum, coefficient), name=name, hist=hist)
'''),
  (PA, '''    def parse_absorber(''', '''    def scaled(spectrum, coefficient):
        """The spectrum with its peak at `coefficient`, when there is one."""
        if coefficient is not None:
            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
        return spectrum

    def parse_absorber('''),
  (PA, '''            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
            return Scatterer(
                spectrum,
                quantum_yield=quantum_yield,
                phase_function=phase_function,
                name=name,
                hist=hist,
            )
        elif spectrum is not None:
            return Scatterer(
                spectrum,
                quantum_yield=quantum_yield,
                phase_function=phase_function,
                name=name,
                hist=hist,
            )
        elif coefficient is not None:
            return Scatterer(
                coefficient,
                quantum_yield=quantum_yield,
                phase_function=phase_function,
                name=name,
                hist=hist,
            )
        raise ValueError("Unexpected scatterer format.")
''', '''            spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
        attenuation = coefficient if spectrum is None else spectrum
        if attenuation is None:
            raise ValueError("Unexpected scatterer format.")
        return Scatterer(
            attenuation,
            quantum_yield=quantum_yield,
            phase_function=phase_function,
            name=name,
            hist=hist,
        )
'''),
  (PA, '''        geometry_types = ("box", "cylinder", "sphere", "mesh")
        geometry_mapper = {
            "box": parse_box,
            "sphere": parse_sphere,
            "cylinder": parse_cylinder,
            "mesh": parse_mesh,
        }
        for geometry_type in geometry_types:
            if geometry_type in spec:
                geometry = geometry_mapper[geometry_type](
                    spec[geometry_type], component_map=component_map
                )
                return Node(geometry=geometry, name=name)
''', '''        for geometry_type, parse_geometry in (
            ("box", parse_box),
            ("cylinder", parse_cylinder),
            ("sphere", parse_sphere),
            ("mesh", parse_mesh),
        ):
            if geometry_type in spec:
                geometry = parse_geometry(
                    spec[geometry_type], component_map=component_map
                )
                return Node(geometry=geometry, name=name)
'''),
  (PA, '''    component_map = {}
    component_specs = spec.get("components", None)
    if "components" in spec:
        for k, v in component_specs.items():
            component_map[k] = parse_component(component_specs[k], k)
''', '''    component_map = {
        k: parse_component(v, k) for k, v in spec.get("components", {}).items()
    }
'''),
  (PA, '''    for k in nodes:
        node = nodes[k]
        coordsys = coordinate_systems[k]
        if node.name == "world":
            node.parent = None
        elif coordsys.get("parent", None) is None:
            node.parent = nodes["world"]
        else:
            node.parent = nodes[coordsys["parent"]]
''', '''    for k, node in nodes.items():
        coordsys = coordinate_systems[k]
        if node.name != "world":
            parent = coordsys["parent"]
            node.parent = nodes["world" if parent is None else parent]
'''),
  (PA, '''        location = coordsys.get("location", None)
        if location:
            node.location = location
        direction = coordsys.get("direction", None)
        if direction:
            node.look_at(direction)
''', '''        if coordsys["location"]:
            node.location = coordsys["location"]
        if coordsys["direction"]:
            node.look_at(coordsys["direction"])
'''),
  (PA, '''            axis = [i for i, v in enumerate(facet) if v != 0][0]
            u_axis, v_axis = [i for i in range(3) if i != axis]
            bins_u = max(10, min(60, int(size[u_axis] * 10)))
            bins_v = max(10, min(60, int(size[v_axis] * 10)))
''', '''            u_axis, v_axis = [i for i in range(3) if facet[i] == 0]
            bins_u, bins_v = (
                min(max(int(size[i] * 10), 10), 60) for i in (u_axis, v_axis)
            )
'''),
  (PA, '''        histograms = []
        for prop, values in (spec.get("histograms") or {}).items():
            if prop == "position":
                prop_a, prop_b, range_a, range_b = values
                histograms.append(Heatmap(prop_a, prop_b, range_a, range_b))
            else:
                start, stop, bins = values
                histograms.append(Histogram(prop, start, stop, bins))
''', '''        histograms = [
            Heatmap(*values) if prop == "position" else Histogram(prop, *values)
            for prop, values in (spec.get("histograms") or {}).items()
        ]
'''),
  (PA, '''    schema_version = spec["version"]
    if schema_version == "1.0":
        return parse_v_1_0(spec, os.path.dirname(filename))
    else:
        raise ValueError("Version {} not supported".format(schema_version))
''', '''    if spec["version"] != "1.0":
        raise ValueError("Version {} not supported".format(spec["version"]))
    return parse_v_1_0(spec, os.path.dirname(filename))
'''),
)

SV = "pvtrace/studio/server.py"
group("studio-a",
  (SV, '''    index = 1
    while f"{stem}-{index}" in existing:
        index += 1
    return f"{stem}-{index}"
''', '''    index = 1
    while True:
        name = f"{stem}-{index}"
        if name not in existing:
            return name
        index += 1
'''),
  (SV, '''        for key in path[:-1]:
            if key not in target:
                target[key] = {}
            target = target[key]
        target[path[-1]] = _flow(payload["value"])
''', '''        *parents, last = payload["path"]
        for key in parents:
            if key not in target:
                target[key] = {}
            target = target[key]
        target[last] = _flow(payload["value"])
'''),
  (SV, '''        target = data
        path = payload["path"]
''', '''        target = data
'''),
  (SV, '''        nodes = {node.name: node for node in PreOrderIter(studio.scene.root)}
        node = nodes[name]
        if node.parent is None:
            raise ValueError("Cannot move the root node.")
        local = studio.scene.root.point_to_node(tuple(world), node.parent)
''', '''        root = studio.scene.root
        node = {n.name: n for n in PreOrderIter(root)}[name]
        if node is root:
            raise ValueError("Cannot move the root node.")
        local = root.point_to_node(tuple(world), node.parent)
'''),
  (SV, '''        for node_spec in data.get("nodes", {}).values():
            for geom in ("box", "sphere", "cylinder", "mesh"):
                material = node_spec.get(geom, {}).get("material", {})
                if name in (material.get("components") or []):
                    material["components"] = [
                        c for c in material["components"] if c != name
                    ]
''', '''        for node_spec in data.get("nodes", {}).values():
            for geom in ("box", "sphere", "cylinder", "mesh"):
                if geom not in node_spec:
                    continue
                material = node_spec[geom].get("material", {})
                used = material.get("components") or []
                if name in used:
                    material["components"] = [c for c in used if c != name]
'''),
  (SV, '''        for rec_name in list((data.get("recorders") or {})):
            if data["recorders"][rec_name].get("node") == name:
                del data["recorders"][rec_name]
''', '''        recorders = data.get("recorders") or {}
        for rec_name in [r for r, s in recorders.items() if s.get("node") == name]:
            del recorders[rec_name]
'''),
  (SV, '''        for key, value in payload["changes"].items():
            if key not in ("event", "facet", "atol"):
                raise ValueError(f"Cannot update recorder key {key!r}")
            recorders[name][key] = _flow(value) if isinstance(value, list) else value
''', '''        recorder = recorders[name]
        for key, value in payload["changes"].items():
            if key not in ("event", "facet", "atol"):
                raise ValueError(f"Cannot update recorder key {key!r}")
            recorder[key] = _flow(value)
'''),
  (SV, '''            if isinstance(hist, Heatmap):
                size = hist.a.bins * hist.b.bins
                values = bins[offset:offset + size]
                entries.append({"values": values.tolist(),
                                "shape": [hist.a.bins, hist.b.bins]})
            else:
                entries.append({"values": bins[offset:offset + hist.bins].tolist()})
''', '''            shape = (
                [hist.a.bins, hist.b.bins] if isinstance(hist, Heatmap) else [hist.bins]
            )
            size = int(np.prod(shape))
            entry = {"values": bins[offset:offset + size].tolist()}
            if len(shape) == 2:
                entry["shape"] = shape
            entries.append(entry)
'''),
  (SV, '''        count = int(d["counts"][j])
        if count < 2:
            continue
        base = j * result.max_events
        points = d["position"][base:base + count]
        # Per-vertex wavelength so luminescent re-emission changes the
        # path colour at the absorption point.
        wavelengths = d["wavelength"][base:base + count]
        paths.append({
            "points": np.round(points, 6).tolist(),
            "wavelengths": np.round(wavelengths, 2).tolist(),
        })
''', '''        count = int(d["counts"][j])
        rows = slice(j * result.max_events, j * result.max_events + count)
        if count >= 2:
            # Per-vertex wavelength so luminescent re-emission changes the
            # path colour at the absorption point.
            paths.append({
                "points": np.round(d["position"][rows], 6).tolist(),
                "wavelengths": np.round(d["wavelength"][rows], 2).tolist(),
            })
'''),
  (SV, '''        compiled = engine.compile_scene(scene)  # raises if unsupported
        payload = self.scene_payload(compiled, scene, spec)
        JSONResponse(jsonable_encoder(payload))  # raises if it cannot be sent
        self.document = text
        self.scene = scene
        self.spec = spec
        return payload
''', '''        payload = self._checked_payload(scene, spec)
        self.document, self.scene, self.spec = text, scene, spec
        return payload

    def _checked_payload(self, scene, spec):
        compiled = engine.compile_scene(scene)  # raises if unsupported
        payload = self.scene_payload(compiled, scene, spec)
        JSONResponse(jsonable_encoder(payload))  # raises if it cannot be sent
        return payload
'''),
)


LSC = "pvtrace/device/lsc.py"

group("device-a",
  (LSC, '''        normal = geometry.normal(ray.position)
        cell_locations = self.lsc._solar_cell_surfaces
        back_surface_mirror = self.lsc._back_surface_mirror_info
        want_back_surface_mirror = back_surface_mirror["want_back_surface_mirror"]
        if np.allclose((0, 0, -1), normal) and want_back_surface_mirror:
            return 1.0  # perfect mirror
        elif np.allclose((-1, 0, 0), normal) and "left" in cell_locations:  # left
            return 0.0  # perfect absorption
        elif np.allclose((1, 0, 0), normal) and "right" in cell_locations:  # right
            return 0.0
        elif np.allclose((0, -1, 0), normal) and "near" in cell_locations:  # near
            return 0.0
        elif np.allclose((0, 1, 0), normal) and "far" in cell_locations:  # far
            return 0.0
        return super(OptionalMirrorAndSolarCell, self).reflectivity(
            surface, ray, geometry, container, adjacent
        )  # opt-out of handling custom reflection
''', '''        normal = geometry.normal(ray.position)
        mirrored = self.lsc._back_surface_mirror_info["want_back_surface_mirror"]
        if mirrored and np.allclose(normal, (0, 0, -1)):
            return 1.0
        if self._has_cell(normal):
            return 0.0
        return super().reflectivity(surface, ray, geometry, container, adjacent)

    EDGES = {
        "left": (-1.0, 0.0, 0.0),
        "right": (1.0, 0.0, 0.0),
        "near": (0.0, -1.0, 0.0),
        "far": (0.0, 1.0, 0.0),
    }

    def _has_cell(self, normal):
        return any(
            np.allclose(self.EDGES[name], normal)
            for name in self.lsc._solar_cell_surfaces
        )
'''),
  (LSC, '''        cell_locations = self.lsc._solar_cell_surfaces
        normal = geometry.normal(ray.position)
        if (
            (np.allclose((-1, 0, 0), normal) and "left" in cell_locations)
            or (np.allclose((1, 0, 0), normal) and "right" in cell_locations)
            or (np.allclose((0, -1, 0), normal) and "near" in cell_locations)
            or (np.allclose((0, 1, 0), normal) and "far" in cell_locations)
        ):
            return ray.direction  #  solar cell is perfectly index matched
''', '''        if self._has_cell(geometry.normal(ray.position)):
            return ray.direction
'''),
  (LSC, '''        if not self.lsc._air_gap_mirror_info["lambertian"]:
            # Specular reflection
            return super(AirGapMirror, self).reflected_direction(
                surface, ray, geometry, container, adjacent
            )
        else:
            normal = geometry.normal(ray.position)
            if not np.allclose((0.0, 0.0, 1.0), normal):  # top surface
                raise NotImplementedError("Not yet generalised to other surfaces.")
''', '''        if self.lsc._air_gap_mirror_info["lambertian"]:
            top = (0.0, 0.0, 1.0)
            if not np.allclose(geometry.normal(ray.position), top):
                raise NotImplementedError("Not yet generalised to other surfaces.")
'''),
  (LSC, '''            return tuple(lambertian().tolist())
''', '''            return tuple(float(x) for x in lambertian())
        return super().reflected_direction(
            surface, ray, geometry, container, adjacent
        )
'''),
  (LSC, '''        components = []
        for component_data in self._user_components:
            cls = component_data.pop("cls")
            coefficient = component_data.pop("coefficient")
            component = cls(coefficient, **component_data)
            components.append(component)
''', '''        components = [
            data.pop("cls")(data.pop("coefficient"), **data)
            for data in self._user_components
        ]
'''),
  (LSC, '''            name = light_data["name"]
            light = Light(
                name=name,
                direction=light_data["direction"],
                wavelength=light_data["wavelength"],
                position=light_data["position"],
            )
            light_node = Node(name=name, light=light, parent=world)
            light_node.location = light_data["location"]
            if light_data["rotation"]:
                light_node.rotate(*light_data["rotation"])
''', '''            self._make_light_node(light_data, world)
'''),
  (LSC, '''    def component_names(self):
''', '''    @staticmethod
    def _make_light_node(data, parent):
        delegates = {key: data[key] for key in ("direction", "wavelength", "position")}
        node = Node(
            name=data["name"],
            light=Light(name=data["name"], **delegates),
            parent=parent,
        )
        node.location = data["location"]
        rotation = data["rotation"]
        if rotation:
            node.rotate(*rotation)
        return node

    def component_names(self):
'''),
  (LSC, '''        facets = set(facets)
        allowed = {"left", "near", "far", "right"}
        if not facets.issubset(allowed):
            raise ValueError("Solar cell have allowed surfaces", allowed)

        self._solar_cell_surfaces = facets.union(self._solar_cell_surfaces)
''', '''        allowed = set(OptionalMirrorAndSolarCell.EDGES)
        if set(facets) - allowed:
            raise ValueError("Solar cell have allowed surfaces", allowed)
        self._solar_cell_surfaces = self._solar_cell_surfaces | set(facets)
'''),
  (LSC, '''            rays, events = zip(*history)
            store["entrance_rays"].append((rays[1], events[1]))
            if events[-1] in (Event.NONRADIATIVE, Event.REACT, Event.KILL):
                # final event is a lost store path information at final event
                store["exit_rays"].append((rays[-1], events[-1]))
            elif events[-1] == Event.EXIT:
                # final event hits the world node. Store path information at
                # penultimate location
                store["exit_rays"].append((rays[-2], events[-2]))
''', '''            store["entrance_rays"].append(tuple(history[1]))
            last = self._last_step(history)
            if last is not None:
                store["exit_rays"].append(last)
'''),
  (LSC, '''    def _make_dataframe(self):
''', '''    @staticmethod
    def _last_step(history):
        _, final = history[-1]
        if final is Event.EXIT:
            return tuple(history[-2])
        lost = {Event.NONRADIATIVE, Event.REACT, Event.KILL}
        return tuple(history[-1]) if final in lost else None

    def _make_dataframe(self):
'''),
  (LSC, '''        records = []

        # Rays entering the scene
        for ray, event in self._store["entrance_rays"]:
            rep = asdict(ray)
            rep["kind"] = "entrance"
            rep["event"] = event.name.lower()
            records.append(rep)

        # Rays exiting the scene
        for ray, event in self._store["exit_rays"]:
            rep = asdict(ray)
            rep["kind"] = "exit"
            rep["event"] = event.name.lower()
            records.append(rep)

        df = pd.DataFrame(records)
''', '''        records = [
            {**asdict(ray), "kind": kind, "event": event.name.lower()}
            for kind in ("entrance", "exit")
            for ray, event in self._store[kind + "_rays"]
        ]
        df = pd.DataFrame(records)
'''),
  (LSC, '''        coords = np.stack(df[column].values)
        df["{}_x".format(column)] = coords[:, 0]
        df["{}_y".format(column)] = coords[:, 1]
        df["{}_z".format(column)] = coords[:, 2]
''', '''        coords = np.stack(df[column].values)
        for index, axis in enumerate("xyz"):
            df["{}_{}".format(column, axis)] = coords[:, index]
'''),
  (LSC, '''        xmin, xmax = -0.5 * length, 0.5 * length
        ymin, ymax = -0.5 * width, 0.5 * width
        zmin, zmax = -0.5 * height, 0.5 * height
        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
        return df
''', '''        sides = (
            ("x", length, "left", "right"),
            ("y", width, "near", "far"),
            ("z", height, "bottom", "top"),
        )
        for axis, extent, low, high in sides:
            column = df["position_" + axis]
            for where, name in ((-0.5 * extent, low), (0.5 * extent, high)):
                df.loc[np.isclose(column, where, atol=EPS_ZERO), "facet"] = name
        return df
'''),
  (LSC, '''        components = self._scene.component_nodes
        lights = self._scene.light_nodes
        all_components = {component.name for component in components}
        all_lights = {light.name for light in lights}

        # Count solar photons exiting
        solar_out = dict()
        for facet in {"left", "right", "near", "far", "top", "bottom"}:
            solar_out[facet] = self.spectrum(
                facets={facet}, source=all_lights, kind="last"
            ).shape[0]

        # Count solar photons entering
        solar_in = dict()
        for facet in {"left", "right", "near", "far", "top", "bottom"}:
            solar_in[facet] = self.spectrum(
                facets={facet}, source=all_lights, kind="first"
            ).shape[0]

        # Count luminescent photons exiting
        lum_out = dict()
        for facet in {"left", "right", "near", "far", "top", "bottom"}:
            lum_out[facet] = self.spectrum(
                facets={facet}, source=all_components, kind="last"
            ).shape[0]

        # Count luminescent photons entering
        lum_in = dict()
        for facet in {"left", "right", "near", "far", "top", "bottom"}:
            lum_in[facet] = self.spectrum(
                facets={facet}, source=all_components, kind="first"
            ).shape[0]

        self._counts = counts = pd.DataFrame(
            {
                "Solar In": pd.Series(solar_in),
                "Solar Out": pd.Series(solar_out),
                "Luminescent Out": pd.Series(lum_out),
                "Luminescent In": pd.Series(lum_in),
            },
            index=["left", "right", "near", "far", "top", "bottom"],
        )
        return counts
''', '''        facets = ["left", "right", "near", "far", "top", "bottom"]
        sources = {
            "Solar": {node.name for node in self._scene.light_nodes},
            "Luminescent": {node.name for node in self._scene.component_nodes},
        }

        def column(source, kind):
            return pd.Series(
                {
                    facet: len(
                        self.spectrum(facets={facet}, source=source, kind=kind)
                    )
                    for facet in facets
                }
            )

        table = {}
        for title, way, kind in (
            ("Solar", "In", "first"),
            ("Solar", "Out", "last"),
            ("Luminescent", "Out", "last"),
            ("Luminescent", "In", "first"),
        ):
            table[title + " " + way] = column(sources[title], kind)
        self._counts = pd.DataFrame(table, index=facets)
        return self._counts
'''),
  (LSC, '''        if kind is None:
            want_kind = True  # Opt-out
        else:
            if kind == "first":
                want_kind = df["kind"] == "entrance"
            else:
                want_kind = df["kind"] == "exit"
''', '''        want_kind = True
        if kind is not None:
            want_kind = df["kind"] == {"first": "entrance", "last": "exit"}[kind]
'''),
  (LSC, '''        if source == "all":
            want_sources = all_sources
        else:
            if isinstance(source, str):
                source = {source}
            if not set(source).issubset(all_sources):
                unknown_source_set = set(source).difference(all_sources)
                raise ValueError("Unknown source requested.", unknown_source_set)

        if source == "all":
            want_source = df["source"].isin(all_sources)
        else:
            want_source = df["source"].isin(set(source))
''', '''        if source == "all":
            wanted = all_sources
        else:
            wanted = {source} if isinstance(source, str) else set(source)
            if wanted - all_sources:
                raise ValueError("Unknown source requested.", wanted - all_sources)
        want_source = df["source"].isin(wanted)
'''),
  (LSC, '''        lum_collected = 0
        for facet in self._solar_cell_surfaces:
            lum_collected += counts["Luminescent Out"][facet]

        lum_escaped = 0
        for facet in all_facets - self._solar_cell_surfaces:
            lum_escaped += counts["Luminescent Out"][facet]

        incident = 0
        for facet in all_facets:
            incident += counts["Solar In"][facet]
''', '''        out = counts["Luminescent Out"]
        lum_collected = sum(out[facet] for facet in self._solar_cell_surfaces)
        lum_escaped = sum(
            out[facet] for facet in all_facets if facet not in self._solar_cell_surfaces
        )
        incident = counts["Solar In"].sum()
'''),
)

group("studio-b",
  (SV, '''            n_rec = len(compiled.recorder_names)
            distinct = np.zeros(n_rec, dtype=np.int64)
            crossings = np.zeros(n_rec, dtype=np.int64)
            sums = np.zeros((n_rec, 4, 2), dtype=np.float64)
            bins = np.zeros(int(compiled.total_bins), dtype=np.int64)
            sent_paths = 0
''', '''            n_rec = len(compiled.recorder_names)
            totals = {
                "rec_distinct": np.zeros(n_rec, dtype=np.int64),
                "rec_crossings": np.zeros(n_rec, dtype=np.int64),
                "rec_sums": np.zeros((n_rec, 4, 2), dtype=np.float64),
                "rec_bins": np.zeros(int(compiled.total_bins), dtype=np.int64),
            }
            paths_left = max_paths
'''),
  (SV, '''                distinct += result.data["rec_distinct"]
                crossings += result.data["rec_crossings"]
                sums += result.data["rec_sums"]
                bins += result.data["rec_bins"]

                paths = []
                if sent_paths < max_paths:
                    paths = _extract_paths(result, max_paths - sent_paths)
                    sent_paths += len(paths)

                elapsed = time.perf_counter() - tic
''', '''                for key in totals:
                    totals[key] += result.data[key]

                paths = _extract_paths(result, paths_left) if paths_left > 0 else []
                paths_left -= len(paths)

                elapsed = time.perf_counter() - tic
                recorders = _recorder_payload(compiled, *totals.values())
'''),
  (SV, '''                    "recorders": _recorder_payload(
                        compiled, distinct, crossings, sums, bins
                    ),
''', '''                    "recorders": recorders,
'''),
  (SV, '''            while True:
                item = await loop.run_in_executor(None, next, stream, None)
                if item is None or stop["flag"]:
                    break
                result, traced = item
''', '''            while not stop["flag"]:
                item = await loop.run_in_executor(None, lambda: next(stream, None))
                if stop["flag"] or item is None:
                    break
                result, traced = item
'''),
  (SV, '''                command = message.get("cmd")
                if command == "run":
                    if studio.scene is None:
                        await ws.send_json({"type": "error",
                                            "message": "Apply a scene first."})
                        continue
''', '''                command = message.get("cmd")
                if command == "run" and studio.scene is None:
                    await ws.send_json({"type": "error",
                                        "message": "Apply a scene first."})
                elif command == "run":
'''),
  (SV, '''    for r, spec in enumerate(compiled.recorder_specs):
        entries = []
        start = compiled.rec_hist_start[r]
        for h, hist in enumerate(spec.histograms):
            offset = int(compiled.hist_offset[start + h])
            if isinstance(hist, Heatmap):
                size =''', '''    for r in range(len(compiled.recorder_specs)):
        spec = compiled.recorder_specs[r]
        entries = []
        start = compiled.rec_hist_start[r]
        for h, hist in enumerate(spec.histograms):
            offset = int(compiled.hist_offset[start + h])
            if isinstance(hist, Heatmap):
                size ='''),
)
