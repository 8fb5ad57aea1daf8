"""
Behaviour-preserving rewrites of every module, used by tools/quiet.py to see that the checks judge what the code does
and not how it is written.  Each is (name, [(file, old, new), ...]).
"""
R = []


def add(name, *edits):
    R.append((name, list(edits)))


MO, PF, CZ, ST, DE = 'oneka/model.py', 'oneka/probabilityfield.py', 'oneka/capturezone.py', 'oneka/stochastic.py', 'oneka/deterministic.py'
UT, VI, AR, ON, RM = 'oneka/utilities.py', 'oneka/visualize.py', 'oneka/archive.py', 'oneka/oneka.py', 'runme.py'

# ------------------------------------------------------------------------------ model
add('model-vectorized', (MO, """
        # Compute the contribution from the wells.
        potential = 0.0
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...

        return potential
""", """
        # Compute the contribution from the wells.
        if not self.wells:
            return 0.0
        xw, yw, rate = self._well_arrays()
        return float(np.sum(rate*np.log(np.hypot(x - xw, y - yw)))/(2*np.pi))

    # ---------------------------------
    def _well_arrays(self):
        return (np.array([float(w[0]) for w in self.wells]),
                np.array([float(w[1]) for w in self.wells]),
                np.array([float(w[3]) for w in self.wells]))
"""), (MO, """
        for well in self.wells:
            dx = x - well[0]
            dy = y - well[1]
            r2 = dx*dx + dy*dy

            Qx += -well[3] * dx/r2 * 0.15915494309189535    # 1/(2*pi) = 0.15915...
            Qy += -well[3] * dy/r2 * 0.15915494309189535

        return [Qx, Qy]
""", """
        if self.wells:
            xw, yw, rate = self._well_arrays()
            dx, dy = x - xw, y - yw
            g = rate/(2*np.pi*(dx*dx + dy*dy))
            Qx -= np.sum(g*dx)
            Qy -= np.sum(g*dy)

        return [Qx, Qy]
"""), (MO, """
        potential = (self.coef[0]*dx**2 + self.coef[1]*dy**2
                     + self.coef[2]*dx*dy
                     + self.coef[3]*dx + self.coef[4]*dy
                     + self.coef[5])
""", """
        A, B, C, D, E, F = self.coef
        potential = F + dx*(A*dx + C*dy + D) + dy*(B*dy + E)
"""))

add('model-helpers', (MO, """
        Qx, Qy = self.compute_discharge(x, y)
        head = self.compute_head(x, y)

        if head <= 0:
            raise AquiferError("discharge_to_velocity: head <= 0")
        elif head > self.thickness:
            Vx = Qx / (self.thickness * self.porosity)
            Vy = Qy / (self.thickness * self.porosity)
        else:
            Vx = Qx / (head * self.porosity)
            Vy = Qy / (head * self.porosity)

        return (Vx, Vy)
""", """
        head = self.compute_head(x, y)
        if head <= 0:
            raise AquiferError("discharge_to_velocity: head <= 0")
        return self._seepage(x, y, min(head, self.thickness))

    # ---------------------------------
    def _seepage(self, x, y, saturated):
        area = saturated * self.porosity
        Qx, Qy = self.compute_discharge(x, y)
        return (Qx/area, Qy/area)
"""), (MO, """
        Qx, Qy = self.compute_discharge(x, y)

        Vx = Qx / (self.thickness * self.porosity)
        Vy = Qy / (self.thickness * self.porosity)

        return (Vx, Vy)
""", """
        return self._seepage(x, y, self.thickness)
"""), (MO, """
        if potential <= 0:
            raise AquiferError("potential_to_head: potential <= 0")
        elif potential < 0.5 * self.conductivity * self.thickness**2:
            head = np.sqrt(2.0 * potential / self.conductivity)
        else:
            head = ((potential + 0.5*self.conductivity*self.thickness**2)
                    / (self.conductivity*self.thickness))

        return head
""", """
        if potential <= 0:
            raise AquiferError("potential_to_head: potential <= 0")
        threshold = 0.5 * self.conductivity * self.thickness**2
        if potential >= threshold:
            return potential/(self.conductivity*self.thickness) + 0.5*self.thickness
        return (2.0 * potential / self.conductivity)**0.5
"""))

add('model-fit-rewritten', (MO, """
        for i in range(nobs):
            x, y, z_ev, z_std = obs[i]
""", """
        for i, (x, y, z_ev, z_std) in enumerate(obs):
"""), (MO, """
            WA[i, :] = np.array([dx**2, dy**2, dx*dy, dx, dy, 1])/pot_std
            Wb[i] = (pot_ev - self.compute_potential_wells_only(x, y))/pot_std
""", """
            weight = 1.0/pot_std
            Wb[i, 0] = weight*(pot_ev - self.compute_potential_wells_only(x, y))
            for col, regressor in enumerate((dx*dx, dy*dy, dx*dy, dx, dy, 1.0)):
                WA[i, col] = weight*regressor
"""), (MO, """
        # Set the regional flow parameters in the model.
        self.xo = xo
        self.yo = yo
        self.coef = coef_ev
""", """
        # Set the regional flow parameters in the model.
        self.coef = coef_ev
        self.yo, self.xo = yo, xo
"""), (MO, """
        coef_cov = np.linalg.inv(np.matmul(WA.T, WA))
        return (coef_ev, coef_cov)
""", """
        normal = WA.T @ WA
        coef_cov = np.linalg.inv(normal)
        return coef_ev, coef_cov
"""))

# ------------------------------------------------------------------------------ probability field
add('field-vectorized-insert', (PF, """
        for j in np.arange(left, right):
            for i in np.arange(bottom, top):
                if not(self.rgrid[i, j]):
                    cx = self.xmin + j*self.deltax
                    cy = self.ymin + i*self.deltay
                    if self.distancesquared(ax, ay, bx, by, cx, cy) < umbra_squared:
                        self.rgrid[i, j] = True
""", """
        if left >= right or bottom >= top:
            return
        cx, cy = np.meshgrid(self.xmin + np.arange(left, right)*self.deltax,
                             self.ymin + np.arange(bottom, top)*self.deltay)
        length2 = (bx - ax)**2 + (by - ay)**2
        if length2 > 0:
            t = np.clip(((cx - ax)*(bx - ax) + (cy - ay)*(by - ay))/length2, 0, 1)
        else:
            t = 0
        d2 = (cx - ax - t*(bx - ax))**2 + (cy - ay - t*(by - ay))**2
        self.rgrid[bottom:top, left:right] |= d2 < umbra_squared
"""))

add('field-grow-helper', (PF, """
                pgrid = np.zeros((nrows, ncols), dtype=np.float)
                rgrid = np.zeros((nrows, ncols), dtype=np.bool)

                rgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.rgrid
                pgrid[rshift:rshift+self.nrows, cshift:cshift+self.ncols] = self.pgrid

                self.rgrid = rgrid
                self.pgrid = pgrid

                self.nrows = nrows
                self.ncols = ncols
""", """
                pad = ((rshift, nrows - self.nrows - rshift), (cshift, ncols - self.ncols - cshift))
                self.rgrid, self.pgrid = np.pad(self.rgrid, pad), np.pad(self.pgrid, pad)
                self.nrows, self.ncols = self.pgrid.shape
"""), (PF, """
        self.total_weight += weight
        self.pgrid[self.rgrid] += weight
        self.rgrid[:] = False
""", """
        self.pgrid = self.pgrid + weight*self.rgrid
        self.total_weight = self.total_weight + weight
        self.rgrid = np.zeros_like(self.rgrid)
"""), (PF, """
        # Insert each line segment.
        for i in range(len(x)-1):
            self.insert(x[i], y[i], x[i+1], y[i+1], umbra)
""", """
        # Insert each line segment.
        points = list(zip(x, y))
        for (ax, ay), (bx, by) in zip(points, points[1:]):
            self.insert(bx, by, ax, ay, umbra)
"""))

# ------------------------------------------------------------------------------ capture zone
add('trace-tableau', (CZ, """
            k2 = feval(xy + dt*(a2[0]*k1))
            k3 = feval(xy + dt*(a3[0]*k1 + a3[1]*k2))
            k4 = feval(xy + dt*(a4[0]*k1 + a4[1]*k2 + a4[2]*k3))
            k5 = feval(xy + dt*(a5[0]*k1 + a5[1]*k2 + a5[2]*k3 + a5[3]*k4))
            k6 = feval(xy + dt*(a6[0]*k1 + a6[1]*k2 + a6[2]*k3 + a6[3]*k4 + a6[4]*k5))

            xyt = xy + dt*(a7[0]*k1 + a7[2]*k3 + a7[3]*k4 + a7[4]*k5 + a7[5]*k6)

            # Control time step for maximum space step and maximum estimated error.
            k2 = feval(xyt)
            est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +
                                     e[4]*k5 + e[5]*k6), np.inf)
            ds = np.linalg.norm(xyt - xy)
""", """
            stages = [k1]
            for row in (a2, a3, a4, a5, a6, a7):
                xyt = xy + dt*sum(c*k for c, k in zip(row, stages))
                stages.append(feval(xyt))
            k2 = stages[6]

            # Control time step for maximum space step and maximum estimated error.
            k1, _, k3, k4, k5, k6, _ = stages
            err = dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 + e[4]*k5 + e[5]*k6)
            est = max(abs(err[0]), abs(err[1]))
            ds = np.hypot(xyt[0] - xy[0], xyt[1] - xy[1])
"""))

add('zone-helpers', (CZ, """
    for theta in np.linspace(0, 2*np.pi, npaths+1)[0:-1]:
        xs = (rtarget + STEPAWAY) * np.cos(theta) + xtarget
        ys = (rtarget + STEPAWAY) * np.sin(theta) + ytarget

        vertices = compute_backtrace(xs, ys, duration, tol, maxstep, feval)

        x = [v[0] for v in vertices]
        y = [v[1] for v in vertices]

        pfield.rasterize(x, y, umbra)
""", """
    radius = rtarget + STEPAWAY
    traces = []
    for i in range(npaths):
        theta = 2*np.pi*i/npaths
        xs, ys = xtarget + radius*np.cos(theta), ytarget + radius*np.sin(theta)
        traces.append(np.array(compute_backtrace(xs, ys, duration, tol, maxstep, feval)))

    for trace in reversed(traces):
        pfield.rasterize(trace[:, 0], trace[:, 1], umbra)
"""), (CZ, """
            if (est < tol) and (ds < maxstep):
                t = t + dt
                k1 = k2
                xy = xyt

                vertices.append(xy)

            dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
""", """
            accepted = est < tol and ds < maxstep
            if accepted:
                vertices.append(xyt)
                t, xy, k1 = t + dt, xyt, k2

            factor = min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10)
            dt *= 0.9 * factor
"""))

# ------------------------------------------------------------------------------ drivers
add('stochastic-helpers', (ST, """
        wells = []
        for w in stochastic_wells:
            xw, yw, rw = w[0:3]
            qw = generate_random_variate(w[3])
            wells.append([xw, yw, rw, qw])

        # Generate a realization of random aquifer properties.
        conductivity = generate_random_variate(c_dist)
        porosity = generate_random_variate(p_dist)
        thickness = generate_random_variate(t_dist)

        # Create the model with the random components.
        mo = Model(base, conductivity, porosity, thickness, wells)
""", """
        # The order of the draws is of no consequence.
        thickness, porosity, conductivity = [generate_random_variate(d) for d in (t_dist, p_dist, c_dist)]
        wells = [(w[0], w[1], w[2], generate_random_variate(w[3])) for w in stochastic_wells]
        mo = Model(base, conductivity, porosity, thickness, wells)
"""), (ST, """
    # Generate and register the capture zone realizations.
    for i in range(nrealizations):
""", """
    # Generate and register the capture zone realizations.
    generator = np.random.default_rng()
    for i in range(nrealizations):
"""), (ST, """
        coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)
        coef_ev = np.reshape(coef_ev, [6, ])
        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
""", """
        coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)
        coef_ev = coef_ev.ravel()
        mo.coef = generator.multivariate_normal(coef_ev, coef_cov)
"""), (ST, """
        if confined:
            def feval(xy):
                Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
                return np.array([-Vx, -Vy])
        else:
            def feval(xy):
                Vx, Vy = mo.compute_velocity(xy[0], xy[1])
                return np.array([-Vx, -Vy])
""", """
        velocity = mo.compute_velocity_confined if confined else mo.compute_velocity

        def feval(xy):
            return -np.array(velocity(*xy))
"""))

add('deterministic-helpers', (DE, """
    wells = []
    for w in stochastic_wells:
        xw, yw, rw = w[0:3]
        qw = compute_variate_mean(w[3])
        wells.append([xw, yw, rw, qw])
""", """
    wells = [[*w[0:3], compute_variate_mean(w[3])] for w in stochastic_wells]
"""), (DE, """
    coef_ev, coef_cov = mo.fit_regional_flow(observations, xtarget, ytarget)
    coef_ev = np.reshape(coef_ev, [6, ])
    mo.coef = coef_ev
""", """
    coef_ev, _ = mo.fit_regional_flow(observations, xtarget, ytarget)
"""), (DE, """
    if confined:
        def feval(xy):
            Vx, Vy = mo.compute_velocity_confined(xy[0], xy[1])
            return np.array([-Vx, -Vy])
    else:
        def feval(xy):
            Vx, Vy = mo.compute_velocity(xy[0], xy[1])
            return np.array([-Vx, -Vy])
""", """
    def feval(xy):
        x, y = xy
        if confined:
            V = mo.compute_velocity_confined(x, y)
        else:
            V = mo.compute_velocity(x, y)
        return -1.0*np.asarray(V)
"""))

add('variates-rewritten', (ST, """
    if not isinstance(arg, (tuple, list)):
        value = arg
    elif len(arg) == 2:
        value = np.random.uniform(arg[0], arg[1])
    elif len(arg) == 3:
        if arg[0] == arg[2]:
            value = arg[0]              # np.random.triangular rejects an empty range.
        else:
            value = np.random.triangular(arg[0], arg[1], arg[2])
    else:
        raise DistributionError('<arg> must be a scalar, pair, or triple.')

    return value
""", """
    if not isinstance(arg, (tuple, list)):
        return arg
    if len(arg) == 2:
        low, high = arg
        return low + (high - low)*np.random.random()
    if len(arg) != 3:
        raise DistributionError('<arg> must be a scalar, pair, or triple.')
    low, mode, high = arg
    if low == high:
        return low
    # Inverse of the cumulative distribution.
    u, width = np.random.random(), high - low
    if u*width < mode - low:
        return low + np.sqrt(u*width*(mode - low))
    return high - np.sqrt((1 - u)*width*(high - mode))
"""), (ST, """
    elif len(arg) == 3:
        value = (arg[0] + arg[1] + arg[2])/3.0
""", """
    elif len(arg) == 3:
        value = sum(arg)/len(arg)
"""), (ST, """
    if isinstance(arg, int) or isinstance(arg, float):
        return lb <= arg <= ub

    if isinstance(arg, tuple) or isinstance(arg, list):
        if len(arg) == 2:
            return lb <= arg[0] <= arg[1] <= ub
        elif len(arg) == 3:
            return lb <= arg[0] <= arg[1] <= arg[2] <= ub

    return False
""", """
    if isinstance(arg, (int, float)):
        bounds = [lb, arg, ub]
    elif isinstance(arg, (tuple, list)) and len(arg) in (2, 3):
        bounds = [lb, *arg, ub]
    else:
        return False
    return all(a <= b for a, b in zip(bounds, bounds[1:]))
"""))

# ------------------------------------------------------------------------------ utilities
add('filter-rewritten', (UT, """
    obs = []
    for ob in observations:
        flag = True
        for we in wellfield:
            if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer:
                flag = False
                break
        if flag:
            obs.append(ob)
        else:
            log.info('observation removed: {0} is too close to {1}'.format(ob, we))
""", """
    obs = []
    for ob in observations:
        near = [we for we in wellfield if np.hypot(ob[0]-we[0], ob[1]-we[1]) <= buffer]
        if near:
            log.info('observation removed: {0} is too close to {1}'.format(ob, near[0]))
            continue
        obs.append(ob)
"""), (UT, """
        if len(same) > 1:
            num = 0
            den = 0
            for ob in same:
                num += ob[2]/ob[3]**2
                den += 1/ob[3]**2
                log.info('    duplicate observation: {0}'.format(ob))
            retained_obs.append((obs[0][0], obs[0][1], num/den, np.sqrt(1/den)))
""", """
        if len(same) > 1:
            for ob in same:
                log.info('    duplicate observation: {0}'.format(ob))
            weights = np.array([ob[3] for ob in same], dtype=float)**-2
            levels = np.array([ob[2] for ob in same], dtype=float)
            average = float(np.dot(weights, levels)/weights.sum())
            retained_obs.append((same[0][0], same[0][1], average, float(weights.sum()**-0.5)))
"""))

add('summary-rewritten', (UT, """
    for j in range(nvar):
        x = np.array([v[j] for v in values])
        x = x[~np.isnan(x)]
        vcnt[j] = len(x)
        vmin[j] = np.min(x)
        vmed[j] = np.median(x)
        vmax[j] = np.max(x)
        vavg[j] = np.mean(x)
        vstd[j] = np.std(x)
""", """
    for j in range(nvar):
        x = sorted(v[j] for v in values if v[j] == v[j])
        n = vcnt[j] = len(x)
        vmin[j], vmax[j] = x[0], x[-1]
        vmed[j] = (x[(n - 1)//2] + x[n//2])/2
        vavg[j] = sum(x)/n
        vstd[j] = np.sqrt(sum((v - vavg[j])**2 for v in x)/n)
"""))

# ------------------------------------------------------------------------------ archive, program
add('archive-rewritten', (AR, """
    with fp:
        pickle.dump(oneka_dict, fp)
""", """
    try:
        fp.write(pickle.dumps(oneka_dict, protocol=4))
    finally:
        fp.close()
"""), (AR, """
    with bz2.BZ2File(filename, "r") as fp:
        oneka_dict = pickle.load(fp)
    return (oneka_dict)
""", """
    with bz2.open(filename, "rb") as fp:
        return pickle.loads(fp.read())
"""))

add('program-helpers', (ON, """
        for p in np.linspace(0.05, 0.95, 19):
            i = np.argmax(pr <= p)
            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'
                     .format(pr[i], area[i], area[i] / 4046.86))  # 4046.86 m^2/acre
""", """
        acre = 4046.86                                            # m^2
        for k in range(19):
            i = np.flatnonzero(pr <= np.linspace(0.05, 0.95, 19)[k])[0]
            log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'.format(pr[i], area[i], area[i]/acre))
"""), (ON, """
    assert(isinstance(npaths, int) and 0 < npaths)
""", """
    assert(isinstance(npaths, int) and npaths >= 1)
"""), (ON, """
    if nrealizations > 1:
        pfield = create_stochastic_capturezone(
            target, npaths, duration, nrealizations,
            base, c_dist, p_dist, t_dist,
            stochastic_wells, obs,
            spacing, umbra, confined,
            tol, maxstep)
""", """
    if nrealizations >= 2:
        pfield = create_stochastic_capturezone(
            target=target, npaths=npaths, duration=duration, nrealizations=nrealizations,
            base=base, c_dist=c_dist, p_dist=p_dist, t_dist=t_dist,
            stochastic_wells=stochastic_wells, observations=obs,
            spacing=spacing, umbra=umbra, confined=confined,
            tol=tol, maxstep=maxstep)
"""), (ON, """
    log.info('stochastic_wells: {0}'.format(len(stochastic_wells)))
    for we in stochastic_wells:
        log.info('    {0}'.format(we))
""", """
    log.info('stochastic_wells: %d', len(stochastic_wells))
    for we in stochastic_wells:
        log.info('    ' + str(we))
"""), (RM, """
    start_time = time.time()
    RUNTIME = time.asctime()
""", """
    RUNTIME = time.asctime()
    start_time = time.time()
"""))

# ------------------------------------------------------------------------------ maps
add('maps-helpers', (VI, """
            try:
                grid[i, j] = mo.compute_head(x[j], y[i])
            except oneka.model.AquiferError:
                grid[i, j] = np.nan
""", """
            grid[i, j] = _head_or_nan(mo, x[j], y[i])
"""), (VI, """
# ------------------------------------------------------------------------------
def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
""", """
# ------------------------------------------------------------------------------
def _head_or_nan(mo, x, y):
    try:
        return mo.compute_head(x, y)
    except oneka.model.AquiferError:
        return np.nan


def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
"""), (VI, """
    area = 0
    for i, y in enumerate(Y):
        ycorners = [y-dy/2, y-dy/2, y+dy/2, y+dy/2, y-dy/2]

        for j, x in enumerate(X):
            xcorners = [x-dx/2, x+dx/2, x+dx/2, x-dx/2, x-dx/2]

            if Z[i, j] > 0:
                plt.fill(xcorners, ycorners, "r")
                area += cell_area
""", """
    captured = np.argwhere(Z > 0)
    for i, j in captured:
        x, y = X[j], Y[i]
        plt.fill([x-dx/2, x+dx/2, x+dx/2, x-dx/2], [y-dy/2, y-dy/2, y+dy/2, y+dy/2], color="red")
    area = len(captured)*cell_area
"""), (VI, """
    pr = np.flip(np.sort(pf.pgrid/pf.total_weight, axis=None))
    n = pr.shape[0]
""", """
    pr = np.sort(pf.pgrid.ravel()/pf.total_weight)[::-1]
    n = len(pr)
"""))

add('comments-and-noops', (MO, """
        potential = self.compute_potential(x, y)

        if potential""", """
        _ = None
        potential = self.compute_potential(x, y)

        if potential"""), (CZ, """
    # Compute the backtraces.
""", """
    pass                        # nothing
    # Compute the backtraces.
"""), (ST, """
    # Initialize the progress bar.
""", """
    assert True
    # Initialize the progress bar.
"""))


add('module-generator', (ST, 'class Error(Exception):\n', '_RNG = np.random.default_rng()\n\n\nclass Error(Exception):\n'),
    (ST, "        mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)\n", "        mo.coef = _RNG.multivariate_normal(coef_ev, coef_cov)\n"))


add('cells-collected', (VI, """                plt.fill(xcorners, ycorners, "r")
""", """                plt.gca().add_collection(matplotlib.collections.PolyCollection([list(zip(xcorners, ycorners))], facecolors='r'))
"""), (VI, "import matplotlib.pyplot as plt\n", "import matplotlib.collections\nimport matplotlib.pyplot as plt\n"))


add('draws-reordered', (ST, """        # Generate a realization of random aquifer properties.
        conductivity = generate_random_variate(c_dist)
        porosity = generate_random_variate(p_dist)
        thickness = generate_random_variate(t_dist)

""", ""), (ST, """        # Generate a realization of a random well field:
""", """        thickness, porosity, conductivity = [generate_random_variate(d) for d in (t_dist, p_dist, c_dist)]

        # Generate a realization of a random well field:
"""), (ST, "            wells.append([xw, yw, rw, qw])\n", "            wells.append((xw, yw, rw, qw))\n"))


add('trace-loop-rewritten', (CZ, "        while (abs(t) < abs(duration)):\n", "        while True:\n            if abs(t) >= abs(duration):\n                break\n"),
    (CZ, "            if (est < tol) and (ds < maxstep):\n                t = t + dt\n                k1 = k2\n                xy = xyt\n                vertices.append(xy)\n",
     "            accepted = (est < tol) and (ds < maxstep)\n            if accepted:\n                t += dt\n                xy, k1 = xyt, k2\n                vertices.append((xy[0], xy[1]))\n"))


add('grow-by-count', (PF, """            while xmin <= self.xmin:
                self.xmin -= self.deltax
                ncols += 1
                cshift += 1
""", """            if xmin <= self.xmin:
                cshift = math.floor((self.xmin - xmin)/self.deltax) + 1
                ncols += cshift
                self.xmin -= cshift*self.deltax
"""))


add('potential-by-hypot', (MO, """            r2 = dx*dx + dy*dy
            potential += well[3] * np.log(r2) * 0.07957747154594767     # 1/(4*pi) = 0.07957...
""", """            potential += well[3] / (2*np.pi) * np.log(np.hypot(dx, dy))
"""))
