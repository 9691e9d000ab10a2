"""Edits that keep the behaviour, for tools/refactor.py."""
U, C, E, R, K, P, O = ("utils.py", "core.py", "estimators.py",
                       "reference_frames.py", "coordinate_systems.py",
                       "plotting.py", "io.py")
REFACTORS = [
    dict(id="rotate_formula", props=["Q02", "A02", "V04"], edits=[(U, '''    r = q[..., 1:]
    s = np.moveaxis(q[..., :1], -1, axis)
    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
    rxv = np.cross(r, v, axisb=axis, axisc=axis)
    vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m

    return vr
''', '''    return _rotate_by(q, v, axis)


def _rotate_by(q, v, axis):
    """Rotate by quaternions in float representation."""
    scalar, vector = np.split(q, [1], axis=-1)
    v = np.moveaxis(v, axis, -1)
    t = 2.0 * np.cross(vector, v)
    rotated = v + (scalar * t + np.cross(vector, t)) / np.einsum(
        "...i,...i->...", q, q
    )[..., np.newaxis]
    return np.moveaxis(rotated, -1, axis)
''')]),
    dict(id="polar_hypot", props=["C01", "C03"], edits=[(K, '''    r = np.linalg.norm(arr, axis=axis)
    phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
    return np.stack((r, phi), axis=axis)
''', '''    x, y = np.moveaxis(arr, axis, 0)
    return np.stack((np.hypot(x, y), np.arctan2(y, x)), axis=axis)
'''), (K, '''    x = np.take(arr, 0, axis=axis) * np.cos(np.take(arr, 1, axis=axis))
    y = np.take(arr, 0, axis=axis) * np.sin(np.take(arr, 1, axis=axis))
    return np.stack((x, y), axis=axis)
''', '''    r = np.take(arr, 0, axis=axis)
    phi = np.take(arr, 1, axis=axis)
    return np.stack([r * f(phi) for f in (np.cos, np.sin)], axis=axis)
''')]),
    dict(id="spherical_atan", props=["C02", "C03"], edits=[(K, '''    r = np.linalg.norm(arr, axis=axis)
    # r is 0 only at the origin
    theta = np.arccos(np.take(arr, 2, axis=axis) / np.where(r == 0.0, 1.0, r))
    phi =''', '''    r = np.sqrt(np.sum(np.square(arr), axis=axis))
    # r is 0 only at the origin
    safe = np.where(r > 0.0, r, 1.0)
    theta = np.arccos(np.take(arr, 2, axis=axis) / safe)
    phi =''')]),
    dict(id="range_loop", props=["T01", "T02", "T03"], edits=[(C, '''        first_stamps = []
        for frame in self.frames:
            if frame.timestamps is not None and not frame.discrete:
                first_stamps.append(frame.timestamps[0])
        for array in self.arrays:
            if array.timestamps is not None:
                first_stamps.append(array.timestamps[0])

        last_stamps = []
        for frame in self.frames:
            if frame.timestamps is not None and not frame.discrete:
                last_stamps.append(frame.timestamps[-1])
        for array in self.arrays:
            if array.timestamps is not None:
                last_stamps.append(array.timestamps[-1])

        first = np.max(first_stamps) if len(first_stamps) else None
        last = np.min(last_stamps) if len(last_stamps) else None

        return first, last
''', '''        stamps = [
            frame.timestamps
            for frame in self.frames
            if frame.timestamps is not None and not frame.discrete
        ] + [a.timestamps for a in self.arrays if a.timestamps is not None]

        if not stamps:
            return None, None

        first, last = stamps[0][0], stamps[0][-1]
        for ts in stamps[1:]:
            first = max(first, ts[0])
            last = min(last, ts[-1])

        return first, last
''')]),
    dict(id="discrete_searchsorted", props=["T01", "T03", "A02"], edits=[(C, '''            translation = np.tile(frame.translation[0], (len(timestamps), 1))
            for t, ts in zip(frame.translation, frame.timestamps):
                translation[timestamps >= ts, :] = t
            rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
            for r, ts in zip(frame.rotation, frame.timestamps):
                rotation[timestamps >= ts, :] = r
''', '''            idx = np.searchsorted(frame.timestamps, timestamps, side="right")
            idx = np.clip(idx - 1, 0, None)
            translation = frame.translation[idx]
            rotation = frame.rotation[idx]
''')]),
    dict(id="static_repeat", props=["T01", "T02", "A03"], edits=[(C, '''                translation = np.tile(frame.translation, (len(timestamps), 1))
                rotation = np.tile(frame.rotation, (len(timestamps), 1))
''', '''                n = len(timestamps)
                translation = np.repeat(frame.translation[None, :], n, axis=0)
                rotation = np.broadcast_to(frame.rotation, (n, 4)).copy()
'''), (C, '''                return np.tile(array.data, (len(timestamps), 1))
''', '''                return np.vstack([array.data] * len(timestamps))
''')]),
    dict(id="unique_sets", props=["T01"], edits=[(C, '''            timestamps = np.concatenate(
                [d.timestamps for d in discrete_frames]
            )
            timestamps = np.unique(timestamps)
''', '''            timestamps = np.unique(
                np.hstack([frame.timestamps for frame in discrete_frames])
            )
'''), (C, '''            timestamps = timestamps[
                (timestamps >= ts_range[0]) & (timestamps <= ts_range[-1])
            ]
''', '''            lower, upper = ts_range
            keep = np.logical_and(timestamps >= lower, timestamps <= upper)
            timestamps = np.compress(keep, timestamps)
''')]),
    dict(id="inverse_helper", props=["A02", "A03", "T01"], edits=[(C, '''            t, r = self._transform_from_frame(frame, timestamps)
            if frame.inverse:
                translation = rotate_vectors(
                    1 / as_quat_array(r), translation - np.array(t)
                )
                rotation = 1 / as_quat_array(r) * rotation
            else:
                translation = rotate_vectors(
                    as_quat_array(r), translation
                ) + np.array(t)
                rotation = as_quat_array(r) * rotation
''', '''            t, r = self._transform_from_frame(frame, timestamps)
            q = as_quat_array(r)
            if frame.inverse:
                q = np.reciprocal(q)
                translation = rotate_vectors(q, np.subtract(translation, t))
            else:
                translation = np.add(rotate_vectors(q, translation), t)
            rotation = np.multiply(q, rotation)
''')]),
    dict(id="interp_columns", props=["T01", "T02"], edits=[(C, '''            translation = interp1d(
                frame.timestamps.astype(float), frame.translation, axis=0
            )(timestamps.astype(float))
''', '''            t_in = frame.timestamps.astype(float)
            t_out = timestamps.astype(float)
            translation = np.column_stack(
                [np.interp(t_out, t_in, x) for x in frame.translation.T]
            )
''')]),
    dict(id="arc_einsum", props=["E01"], edits=[(E, '''    sn1 = np.sum(v1**2, axis=axis, keepdims=True)
    sn2 = np.sum(v2**2, axis=axis, keepdims=True)
    d12 = np.sum(v1 * v2, axis=axis, keepdims=True)
    c12 = np.cross(v1, v2, axis=axis)
    rotation = np.concatenate((np.sqrt(sn1 * sn2) + d12, c12), axis=axis)
    rotation /= np.linalg.norm(rotation, axis=axis, keepdims=True)
''', '''    n1 = np.linalg.norm(v1, axis=axis, keepdims=True)
    n2 = np.linalg.norm(v2, axis=axis, keepdims=True)
    d12 = np.sum(np.multiply(v1, v2), axis=axis, keepdims=True)
    xyz = np.cross(v1, v2, axis=axis)
    w = n1 * n2 + d12
    norm = np.sqrt(
        np.square(w) + np.sum(np.square(xyz), axis=axis, keepdims=True)
    )
    rotation = np.concatenate([w, xyz], axis=axis) / norm
''')]),
    dict(id="fit_diag", props=["E02", "E03", "E04"], edits=[(E, '''    H = np.dot(v1.T, v2)
    U, S, Vt = np.linalg.svd(H)
    R = np.dot(Vt.T, U.T)

    # special reflection case
    if np.linalg.det(R) < 0:
        Vt[2, :] *= -1
        R = np.dot(Vt.T, U.T)

    # rotation as quaternion
    rotation = as_float_array(from_rotation_matrix(R))

    if was_dataarray:
        import''', '''    R = _kabsch(v1, v2)

    # rotation as quaternion
    rotation = as_float_array(from_rotation_matrix(R))

    if was_dataarray:
        import'''), (E, '''    H = np.dot(v1_centered.T, v2_centered)
    U, S, Vt = np.linalg.svd(H)
    R = np.dot(Vt.T, U.T)

    # special reflection case
    if np.linalg.det(R) < 0:
        Vt[2, :] *= -1
        R = np.dot(Vt.T, U.T)
''', '''    R = _kabsch(v1_centered, v2_centered)
'''), (E, '''def _make_transform_dataarrays''', '''def _kabsch(v1, v2):
    """Rotation matrix by the Kabsch algorithm."""
    U, _, Vt = np.linalg.svd(v1.T @ v2)
    sign = np.sign(np.linalg.det(Vt) * np.linalg.det(U))
    return Vt.T @ np.diag([1.0, 1.0, sign]) @ U.T


def _make_transform_dataarrays'''), (E, '''    translation = mean_v2.T - np.dot(R, mean_v1.T)
''', '''    translation = mean_v2 - R @ mean_v1
''')]),
    dict(id="icp_while", props=["E04"], edits=[(E, '''    for i in range(max_iterations):
''', '''    n_iterations = 0
    while n_iterations < max_iterations:
        n_iterations += 1
'''), (E, '''        t, r = best_fit_transform(v1_new, v2[idx])
''', '''        t, r = best_fit_transform(v1_new, np.take(v2, idx, axis=0))
'''), (E, '''        mean_error = np.mean(distances)
        if np.abs(prev_error - mean_error) < tolerance:
            break
''', '''        mean_error = distances.sum() / distances.size
        improvement = abs(mean_error - prev_error)
        if improvement < tolerance:
            break
''')]),
    dict(id="icp_brute", props=["E04"], edits=[(E, '''    kd_tree = cKDTree(v2)
    distances, idx = kd_tree.query(v1, 1)

    return idx.ravel(), distances.ravel()
''', '''    diff = v1[:, np.newaxis, :] - v2[np.newaxis, :, :]
    distances = np.linalg.norm(diff, axis=-1)

    return np.argmin(distances, axis=1), np.min(distances, axis=1)
''')]),
    dict(id="outlier_helper", props=["V01", "V02", "V03"], edits=[(C, '''        dt = np.linalg.norm(
            np.diff(translation, n=2, axis=time_axis), axis=axis
        )
        dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
        linear = interp1d(
            timestamps[dt <= outlier_thresh],
            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
            axis=time_axis,
            bounds_error=False,
        )(timestamps)
''', '''        step = np.diff(np.diff(translation, axis=time_axis), axis=time_axis)
        jump = np.sqrt(np.sum(step**2, axis=axis))
        jump = np.pad(jump, (0, 2)) + np.pad(jump, (1, 1))
        inlier = ~(jump > outlier_thresh)
        interpolator = interp1d(
            timestamps[inlier],
            np.compress(inlier, linear, axis=time_axis),
            axis=time_axis,
            bounds_error=False,
        )
        linear = interpolator(timestamps)
'''), (C, '''        dr = np.hstack((dr, 0.0, 0.0)) + np.hstack((0.0, dr, 0.0))
''', '''        dr = np.concatenate((dr, np.zeros(2))) + np.concatenate(
            (np.zeros(1), dr, np.zeros(1))
        )
''')]),
    dict(id="angular_nan", props=["V02", "V03", "V04"], edits=[(C, '''        nan_idx = np.any(
            np.isnan(r),
            axis=tuple(a for a in range(r.ndim) if a != time_axis),
        )
''', '''        nan_idx = (
            np.isnan(np.moveaxis(r, time_axis, 0))
            .reshape(r.shape[time_axis], -1)
            .any(axis=1)
        )
'''), (C, '''        angular = np.nan * np.ones_like(r[..., :-1])
''', '''        angular = np.full_like(r[..., :-1], np.nan)
'''), (C, '''as_float_array(2 * q.conjugate() * dq)[..., 1:]''',
        '''2 * as_float_array(np.conjugate(q) * dq)[..., 1:]''')]),
    dict(id="qmean_einsum", props=["Q03"], edits=[(U, '''    q = q[..., np.newaxis]
    qt = np.swapaxes(q, -2, -1)
    A = np.mean(q * qt, axis=axis)

    # compute largest eigenvector of A
    l, v = np.linalg.eigh(A)
    qm = v[..., -1]
''', '''    outer = np.einsum("...i,...j->...ij", q, q)
    A = outer.mean(axis=axis)

    # compute largest eigenvector of A
    _, v = np.linalg.eigh(A)
    qm = np.take(v, -1, axis=-1)
''')]),
    dict(id="qmul_loop", props=["Q01", "A02"], edits=[(U, '''        q = (as_quat_array(np.swapaxes(qq, qaxis, -1)) for qq in q)
        qm = reduce(operator.mul, q, 1)
        return np.swapaxes(as_float_array(qm), -1, qaxis)
''', '''        first, *others = [
            as_quat_array(np.swapaxes(qq, qaxis, -1)) for qq in q
        ]
        qm = first
        for other in others:
            qm = np.multiply(qm, other)
        return np.swapaxes(as_float_array(qm), -1, qaxis)
'''), (U, '''        q = np.swapaxes(q, qaxis, -1)
        qi = as_float_array(1 / as_quat_array(q))
        return np.swapaxes(qi, -1, qaxis)
''', '''        q = np.swapaxes(q, qaxis, -1)
        conj = q * np.array([1.0, -1.0, -1.0, -1.0])
        qi = conj / np.sum(q * q, axis=-1, keepdims=True)
        return np.swapaxes(qi, -1, qaxis)
''')]),
    dict(id="qinterp_move", props=["Q04", "I02"], edits=[(U, '''    q = np.swapaxes(q, axis, 0)
    try:
        qi = squad(q, t_in, t_out)
    except ValueError:
        raise RuntimeError(
            "Error using SQUAD with multi-dimensional array, please upgrade "
            "the quaternion package to the latest version"
        )
    qi = np.swapaxes(qi, 0, axis)
''', '''    qi = np.moveaxis(squad(np.moveaxis(q, axis, 0), t_in, t_out), 0, axis)
''')]),
    dict(id="euler_dict", props=["Q05", "O01"], edits=[(U, '''    # rearrange rotors according to order
    rotors = [None] * 3
    try:
        rotors[order.index("r")] = roll
        rotors[order.index("p")] = pitch
        rotors[order.index("y")] = yaw
        if len(order) != len(rotors):
            raise ValueError
    except (ValueError, IndexError):
        raise ValueError(
            f"order must be a permutation of 'r', 'p' and 'y', got {order}"
        )

    # chain rotors
    q = quaternion(1, 0, 0, 0)
    for r in rotors:
        if r is not None:
            q = q * r
''', '''    if sorted(order) != sorted("rpy"):
        raise ValueError(
            f"order must be a permutation of 'r', 'p' and 'y', got {order}"
        )

    # chain rotors according to order
    rotors = dict(r=roll, p=pitch, y=yaw)
    q = reduce(
        operator.mul,
        [rotors[k] for k in order if rotors[k] is not None],
        quaternion(1, 0, 0, 0),
    )
'''), (U, '''        roll = from_rotation_vector(
            np.stack((roll, np.zeros(shape), np.zeros(shape)), axis=-1)
        )
''', '''        half = 0.5 * roll
        zero = np.zeros(shape)
        roll = as_quat_array(
            np.stack((np.cos(half), np.sin(half), zero, zero), axis=-1)
        )
''')]),
    dict(id="walk_paths", props=["A01", "A02", "A03"], edits=[(R, '''        to_rf = _resolve_rf(to_rf)
        walker = Walker()
        up, _, down = walker.walk(self, to_rf)
        return up, down
''', '''        to_rf = _resolve_rf(to_rf)
        if self.root is not to_rf.root:
            return Walker().walk(self, to_rf)[::2]
        shared = 0
        for a, b in zip(self.path, to_rf.path):
            if a is not b:
                break
            shared += 1
        return self.path[:shared - 1:-1], to_rf.path[shared:]
''')]),
    dict(id="frames_helper", props=["A01", "A03", "I01", "T02"], edits=[(R, '''        ndim = np.ndim(arr)
        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
        src, dst = self._resolve_axes(ndim, axis, arr_ts, time_axis)
        matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
        t, r, ts = matcher.get_transformation()
        arr, _ = matcher.get_arrays(ts)

        t = self._expand_singleton_axes(t, arr.ndim)
        r = self._expand_singleton_axes(r, arr.ndim)
        arr = rotate_vectors(r, arr)
        arr = arr + np.array(t)

        # undo axis moves
        arr = np.moveaxis(arr, dst, src)

        if not return_timestamps:
            return arr
        else:
            return arr, ts
''', '''        ndim = np.ndim(arr)
        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
        src, dst = self._resolve_axes(ndim, axis, arr_ts, time_axis)
        (t, r, ts), arr = self._matched(arr, arr_ts, to_frame)

        t, r = (self._expand_singleton_axes(x, arr.ndim) for x in (t, r))
        moved = np.moveaxis(rotate_vectors(r, arr) + t, dst, src)

        return (moved, ts) if return_timestamps else moved

    def _matched(self, arr, arr_ts, to_frame):
        """Transformation to another frame and the array matched to it."""
        matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
        transformation = matcher.get_transformation()
        return transformation, matcher.get_arrays(transformation[-1])[0]
'''), (R, '''        if t_or_r.ndim > 1:
            for _ in range(ndim - 2):
                t_or_r = np.expand_dims(t_or_r, 1)

        return t_or_r
''', '''        if t_or_r.ndim > 1 and ndim > 2:
            n, k = t_or_r.shape
            t_or_r = t_or_r.reshape((n,) + (1,) * (ndim - 2) + (k,))

        return t_or_r
''')]),
    dict(id="init_arrays", props=["A04", "R01", "T04"], edits=[(R, '''            translation = np.zeros(t_shape)
''', '''            translation = np.full(t_shape, 0.0)
'''), (R, '''            rotation = np.zeros(r_shape)
            rotation[..., 0] = 1.0
''', '''            rotation = np.tile([1.0, 0.0, 0.0, 0.0], t_shape[:-1] + (1,))
            rotation = rotation.reshape(r_shape)
'''), (R, '''        if inverse:
            rotation = qinv(rotation)
            translation = -rotate_vectors(rotation, translation)
''', '''        if inverse:
            inv = qinv(rotation)
            rotation, translation = inv, rotate_vectors(inv, -translation)
''')]),
    dict(id="monotonic_all", props=["T04", "T01"], edits=[(C, '''            if np.any(np.diff(timestamps.astype(float)) < 0):
''', '''            t = timestamps.astype(float)
            if not np.all(t[1:] >= t[:-1]):
''')]),
    dict(id="dataarray_copy", props=["I02", "I03", "T02"], edits=[(C, '''    dims = tuple((d if d != old_dim else new_dim) for d in dims)

    coords = {c: coords[c] for c in coords if old_dim not in coords[c].dims}
    coords[new_dim] = new_coord
''', '''    dims = list(dims)
    dims[axis] = new_dim
    dims = tuple(dims)

    kept = {}
    for c, coord in coords.items():
        if old_dim in coord.dims:
            continue
        kept[c] = coord
    coords = {**kept, new_dim: new_coord}
'''), (C, '''        if len(coords[time_dim]) != len(ts_out) or np.any(
            coords[time_dim] != ts_out
        ):
''', '''        if len(coords[time_dim]) != len(ts_out) or not np.all(
            np.asarray(coords[time_dim]) == np.asarray(ts_out)
        ):
''')]),
    dict(id="registry_get", props=["R01", "R02"], edits=[(R, '''    if name not in _registry:
        raise ValueError(
            "Reference frame with name " + name + " not found in registry"
        )

    _registry.pop(name)
''', '''    try:
        del _registry[name]
    except KeyError:
        raise ValueError(
            f"Reference frame with name {name} not found in registry"
        )
'''), (R, '''    if rf.name in _registry:
        if update:
            # TODO keep children?
            if _registry[rf.name] is not rf:
                _registry[rf.name].parent = None
        else:
            raise ValueError(
                f"Reference frame with name {rf.name} is already registered. "
                f"Specify update=True to overwrite."
            )
''', '''    old = _registry.get(rf.name)
    if old is not None and not update:
        raise ValueError(
            f"Reference frame with name {rf.name} is already registered. "
            f"Specify update=True to overwrite."
        )
    if old is not None and old is not rf:
        # TODO keep children?
        old.parent = None
''')]),
    dict(id="plot_loop", props=["P01"], edits=[(P, '''    x_range = abs(x_limits[1] - x_limits[0])
    x_middle = np.mean(x_limits)
    y_range = abs(y_limits[1] - y_limits[0])
    y_middle = np.mean(y_limits)
    z_range = abs(z_limits[1] - z_limits[0])
    z_middle = np.mean(z_limits)

    plot_radius = 0.5 * max([x_range, y_range, z_range])

    ax.set_xlim3d([x_middle - plot_radius, x_middle + plot_radius])
    ax.set_ylim3d([y_middle - plot_radius, y_middle + plot_radius])
    ax.set_zlim3d([z_middle - plot_radius, z_middle + plot_radius])
''', '''    limits = np.array([x_limits, y_limits, z_limits])
    middle = limits.mean(axis=1)
    radius = 0.5 * np.abs(limits[:, 1] - limits[:, 0]).max()

    for m, set_lim in zip(
        middle, (ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d)
    ):
        set_lim(m - radius, m + radius)
'''), (P, '''    vx = rotate_vectors(arr, np.array((1, 0, 0)), one_to_one=False)
    vy = rotate_vectors(arr, np.array((0, 1, 0)), one_to_one=False)
    vz = rotate_vectors(arr, np.array((0, 0, 1)), one_to_one=False)

    lines = [
        plot_vectors(vx, base, ax, color="r", length=0.5, **kwargs),
        plot_vectors(vy, base, ax, color="g", length=0.5, **kwargs),
        plot_vectors(vz, base, ax, color="b", length=0.5, **kwargs),
    ]

    return lines
''', '''    lines = []
    for unit, color in zip(np.eye(3), "rgb"):
        v = rotate_vectors(arr, unit, one_to_one=False)
        lines.append(
            plot_vectors(v, base, ax, color=color, length=0.5, **kwargs)
        )

    return lines
''')]),
    dict(id="optitrack_map", props=["O01"], edits=[(O, '''        rpy = np.deg2rad(data_dict[name]["Rotation"].values)
        order = (
            meta.get("Rotation Type", "XYZ")
            .replace("X", "r")
            .replace("Y", "p")
            .replace("Z", "y")
        )
''', '''        rpy = np.radians(data_dict[name]["Rotation"].to_numpy())
        order = "".join(
            {"X": "r", "Y": "p", "Z": "y"}[c]
            for c in meta.get("Rotation Type", "XYZ")
        )
'''), (O, '''            data_dict[name]["Position"] /= 100
''', '''            data_dict[name]["Position"] = data_dict[name]["Position"] / 100
''')]),
    dict(id="ros_publish", props=["S03"], edits=[("ros/transformer.py", '''            transform = make_transform_msg(
                self.translation[idx],
                self.rotation[idx],
                self.base.name,
                self.frame.name,
                ts,
            )
            if self.pose_publisher is not None:
                pose = make_pose_msg(
                    self.translation[idx],
                    self.rotation[idx],
                    self.base.name,
                    ts,
                )
''', '''            t, r = self.translation[idx], self.rotation[idx]
            base, frame = self.base.name, self.frame.name
            transform = make_transform_msg(t, r, base, frame, time=ts)
            if self.pose_publisher is not None:
                pose = make_pose_msg(t, r, base, time=ts)
'''), ("ros/transformer.py", '''                self.idx = (self.idx + 1) % len(self.timestamps)
                if isinstance(self.timestamps, pd.DatetimeIndex):
                    dt = (
                        self.timestamps.values[self.idx].astype(float) / 1e9
                        - self.timestamps.values[self.idx - 1].astype(float)
                        / 1e9
                        if self.idx > 0
                        else 0.0
                    )
                else:
                    dt = float(
                        self.timestamps.values[self.idx]
                        - self.timestamps.values[self.idx - 1]
                        if self.idx > 0
                        else 0.0
                    )

                rospy.sleep(dt)
''', '''                self.idx += 1
                if self.idx >= len(self.timestamps):
                    self.idx = 0
                dt = 0.0
                if self.idx > 0:
                    seconds = _to_seconds(self.timestamps.values)
                    dt = float(seconds[self.idx] - seconds[self.idx - 1])

                rospy.sleep(dt)
''')]),
    dict(id="ros_marker", props=["S04"], edits=[("ros/visualization.py", '''        points = self.translation.reshape(-1, 3)
        show_every = -(-points.shape[0] // max_points)
        marker.points = [Point(*row) for row in points[::show_every]]
''', '''        points = np.atleast_2d(self.translation)
        show_every = int(np.ceil(len(points) / max_points))
        marker.points = [
            Point(x=x, y=y, z=z) for x, y, z in points[::show_every]
        ]
'''), ("ros/visualization.py", '''from threading import Thread
''', '''from threading import Thread

import numpy as np
''')]),
    dict(id="ros_bag", props=["S05"], edits=[("ros/io.py", '''            return_vals = {
                "timestamps": arr[:, 0],
                "position": arr[:, 1:4],
                "orientation": arr[:, 4:8],
                "linear_velocity": arr[:, 8:11],
                "angular_velocity": arr[:, 11:],
            }
''', '''            ts, position, orientation, linear, angular = np.split(
                arr, [1, 4, 8, 11], axis=1
            )
            return_vals = {
                "timestamps": ts.ravel(),
                "position": position,
                "orientation": orientation,
                "linear_velocity": linear,
                "angular_velocity": angular,
            }
''')]),
    dict(id="ros_play", props=["S06"], edits=[("ros/utils.py", '''    interval = np.mean(np.diff(_to_seconds(timestamps))) * 1e3 / speed
''', '''    seconds = _to_seconds(timestamps)
    interval = (seconds[1:] - seconds[:-1]).mean() * 1000.0 / speed
''')]),
]
