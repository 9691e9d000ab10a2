"""More edits that keep the behaviour, for tools/refactor.py."""
U, C, E, R, K, P, O, A, I = (
    "utils.py", "core.py", "estimators.py", "reference_frames.py",
    "coordinate_systems.py", "plotting.py", "io.py", "accessors.py",
    "__init__.py")
RM, RT, RV, RI, RU = ("ros/msg.py", "ros/transformer.py",
                      "ros/visualization.py", "ros/io.py", "ros/utils.py")
REFACTORS = [
    dict(id="msg_helper", props=["S01", "S02", "S03", "S05"], edits=[
        (RM, '''def make_transform_msg(t, r, frame_id, child_frame_id, time=0.0):
''', '''def _fill_header(msg, frame_id, time):
    """Set frame and stamp of a message."""
    header = msg.header
    header.frame_id, header.stamp = frame_id, rospy.Time.from_sec(time)
    return msg


def _wxyz_to_msg(q):
    """Convert scalar-first sequence to quaternion message."""
    w, x, y, z = q
    return Quaternion(x=x, y=y, z=z, w=w)


def make_transform_msg(t, r, frame_id, child_frame_id, time=0.0):
'''),
        (RM, '''    msg = TransformStamped()
    msg.header.stamp = rospy.Time.from_sec(time)
    msg.header.frame_id = frame_id
    msg.child_frame_id = child_frame_id
''', '''    msg = _fill_header(TransformStamped(), frame_id, time)
    msg.child_frame_id = child_frame_id
'''),
        (RM, "Quaternion(r[1], r[2], r[3], r[0])", "_wxyz_to_msg(r)"),
        (RM, "Quaternion(o[1], o[2], o[3], o[0])", "_wxyz_to_msg(o)"),
        (RM, '''    msg = PoseStamped()
    msg.header.stamp = rospy.Time.from_sec(time)
    msg.header.frame_id = frame_id
''', '''    msg = _fill_header(PoseStamped(), frame_id, time)
''')]),
    dict(id="msg_unpack", props=["S01", "S05"], edits=[
        (RM, '''    if stamped:
        t = msg.transform.translation
        r = msg.transform.rotation
    else:
        t = msg.translation
        r = msg.rotation

    return (t.x, t.y, t.z), (r.w, r.x, r.y, r.z)
''', '''    if stamped:
        return unpack_transform_msg(msg.transform)

    return (
        unpack_vector_msg(msg.translation),
        unpack_quaternion_msg(msg.rotation),
    )
'''),
        (RM, '''    if stamped:
        p = msg.pose.position
        o = msg.pose.orientation
    else:
        p = msg.position
        o = msg.orientation

    return (p.x, p.y, p.z), (o.w, o.x, o.y, o.z)
''', '''    pose = msg.pose if stamped else msg

    return (
        tuple(getattr(pose.position, c) for c in "xyz"),
        tuple(getattr(pose.orientation, c) for c in "wxyz"),
    )
''')]),
    dict(id="transformer_loop", props=["S02"], edits=[(RT, '''        root = reference_frame.root

        # get the first and last timestamps for all moving reference frames
        t_start_end = list(
            zip(
                *[
                    (
                        _to_seconds(node.timestamps)[0],
                        _to_seconds(node.timestamps)[-1],
                    )
                    for node in PreOrderIter(root)
                    if node.timestamps is not None
                ]
            )
        )

        if len(t_start_end) == 0:
            transformer = Transformer(cache_time=None)
        else:
            # cache time from earliest start to latest end
            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0])
            transformer = Transformer(cache_time=cache_time)

        for node in PreOrderIter(root):
            if isinstance(node, ReferenceFrame):
                if node.parent is not None:
                    if node.timestamps is None:
                        transformer.set_transform_static(node)
                    else:
                        transformer.set_transforms(node)
            else:
                raise NotImplementedError()

        return transformer
''', '''        nodes = list(PreOrderIter(reference_frame.root))

        first, last = None, None
        for node in nodes:
            if node.timestamps is None:
                continue
            stamps = _to_seconds(node.timestamps)
            first = stamps[0] if first is None else min(first, stamps[0])
            last = stamps[-1] if last is None else max(last, stamps[-1])

        transformer = Transformer(
            cache_time=None if first is None else last - first
        )

        for node in nodes:
            if not isinstance(node, ReferenceFrame):
                raise NotImplementedError()
            if node.is_root:
                continue
            if node.timestamps is not None:
                transformer.set_transforms(node)
            else:
                transformer.set_transform_static(node)

        return transformer
''')]),
    dict(id="transformer_lookup", props=["S02"], edits=[(RT, '''        import rospy
        import tf2_geometry_msgs

        from .msg import make_point_msg, unpack_point_msg

        transform = self._buffer.lookup_transform(
            target_frame, source_frame, rospy.Time.from_sec(time)
        )
        p_msg = make_point_msg(p, source_frame, time)
''', '''        import tf2_geometry_msgs

        from .msg import make_point_msg, unpack_point_msg

        transform = self._lookup(target_frame, source_frame, time)
        p_msg = make_point_msg(p, source_frame, time)
'''), (RT, '''    def transform_vector(self, v, target_frame, source_frame, time=0.0):
''', '''    def _lookup(self, target_frame, source_frame, time):
        """Look up a transform message."""
        import rospy

        return self._buffer.lookup_transform(
            target_frame, source_frame, rospy.Time.from_sec(time)
        )

    def transform_vector(self, v, target_frame, source_frame, time=0.0):
''')]),
    dict(id="moveaxis_transpose", props=["I01", "A03"], edits=[(R, '''        # TODO this should be done somewhere else
        src, dst = cls._resolve_axes(arr.ndim, axis, timestamps, time_axis)

        return np.moveaxis(arr, src, dst), timestamps
''', '''        # TODO this should be done somewhere else
        src, _ = cls._resolve_axes(arr.ndim, axis, timestamps, time_axis)
        src = [a % arr.ndim for a in src]
        others = [a for a in range(arr.ndim) if a not in src]

        return np.transpose(arr, src[:-1] + others + src[-1:]), timestamps
''')]),
    dict(id="expand_reshape", props=["I01", "A03", "V04"], edits=[(R, '''        if t_or_r.ndim > 1:
            for _ in range(ndim - 2):
                t_or_r = np.expand_dims(t_or_r, 1)

        return t_or_r
''', '''        if t_or_r.ndim < 2 or ndim <= 2:
            return t_or_r

        n, k = t_or_r.shape
        return t_or_r.reshape((n,) + (1,) * (ndim - 2) + (k,))
''')]),
    dict(id="transform_points_shared", props=["A03", "A02", "T02"], edits=[
        (R, '''        t = self._expand_singleton_axes(t, arr.ndim)
        r = self._expand_singleton_axes(r, arr.ndim)
        arr = rotate_vectors(r, arr)
        arr = arr + np.array(t)

        # undo axis moves
''', '''        t, r = (self._expand_singleton_axes(x, arr.ndim) for x in (t, r))
        arr = np.add(rotate_vectors(r, arr), t)

        # undo axis moves
''')]),
    dict(id="make_dataarray_flow", props=["I02", "I03", "C03"], edits=[(C, '''        assert ts_out is not None
        if len(coords[time_dim]) != len(ts_out) or np.any(
            coords[time_dim] != ts_out
        ):
            # interpolate if timestamps after transform have changed
            for c in coords:
                if time_dim in coords[c].dims and c != time_dim:
                    if np.issubdtype(coords[c].dtype, np.number):
                        coords[c] = coords[c].interp({time_dim: ts_out})
                    else:
                        coords[c] = coords[c].sel(
                            {time_dim: ts_out}, method="nearest"
                        )
            coords[time_dim] = ts_out
''', '''        assert ts_out is not None
        changed = len(coords[time_dim]) != len(ts_out) or not np.all(
            coords[time_dim] == ts_out
        )
        if changed:
            at = {time_dim: ts_out}
            along_time = [
                name
                for name, coord in coords.items()
                if name != time_dim and time_dim in coord.dims
            ]
            for name_ in along_time:
                coord = coords[name_]
                coords[name_] = (
                    coord.interp(at)
                    if np.issubdtype(coord.dtype, np.number)
                    else coord.sel(at, method="nearest")
                )
            coords[time_dim] = ts_out
''')]),
    dict(id="replace_dim_table", props=["C03", "V02", "E01", "I02"], edits=[
        (C, '''    if dimensionality == 2:
        if into == "cartesian":
            new_dim = "cartesian_axis"
            new_coord = ["x", "y"]
        elif into == "polar":
            new_dim = "polar_axis"
            new_coord = ["r", "phi"]
    elif dimensionality == 3:
        if into == "cartesian":
            new_dim = "cartesian_axis"
            new_coord = ["x", "y", "z"]
        elif into == "spherical":
            new_dim = "spherical_axis"
            new_coord = ["r", "theta", "phi"]
        elif into == "quaternion":
            new_dim = "quaternion_axis"
            new_coord = ["w", "x", "y", "z"]

    dims = tuple((d if d != old_dim else new_dim) for d in dims)

    coords = {c: coords[c] for c in coords if old_dim not in coords[c].dims}
    coords[new_dim] = new_coord

    return coords, dims
''', '''    new_dim = f"{into}_axis"
    new_coord = _AXIS_LABELS[dimensionality, into]

    new_dims = list(dims)
    new_dims[axis] = new_dim

    kept = {}
    for label, coord in coords.items():
        if old_dim in coord.dims:
            continue
        kept[label] = coord
    kept[new_dim] = list(new_coord)

    return kept, tuple(new_dims)
'''), (C, '''def _replace_dim(coords, dims, axis, into, dimensionality):
''', '''_AXIS_LABELS = {
    (2, "cartesian"): "xy",
    (2, "polar"): ("r", "phi"),
    (3, "cartesian"): "xyz",
    (3, "spherical"): ("r", "theta", "phi"),
    (3, "quaternion"): "wxyz",
}


def _replace_dim(coords, dims, axis, into, dimensionality):
''')]),
    dict(id="transform_outof_flow", props=["I03", "I02", "I04"], edits=[(C, '''    if outof is None:
        if attrs is not None and what in attrs:
            outof = _resolve_rf(attrs[what])
        else:
            raise ValueError(
''', '''    current = (attrs or {}).get(what)
    if outof is None:
        if current is not None:
            outof = _resolve_rf(current)
        else:
            raise ValueError(
'''), (C, '''        if attrs is not None and what in attrs and attrs[what] != outof.name:
            warnings.warn(
                f"You are transforming the '{what}' of the array out of "
                f"{outof.name}, but the current '{what}' the array is "
                f"{attrs[what]}"
            )
''', '''        if current is not None and outof.name != current:
            warnings.warn(
                f"You are transforming the '{what}' of the array out of "
                f"{outof.name}, but the current '{what}' the array is "
                f"{current}"
            )
'''), (C, '''        attrs[what] = into.name
        attrs["representation_frame"] = into.name

    arr, ts_out''', '''        attrs.update({what: into.name, "representation_frame": into.name})

    arr, ts_out''')]),
    dict(id="velocity_merge", props=["V04"], edits=[(R, '''        linear = linear + np.cross(angular, translation)
        arr = arr + self._expand_singleton_axes(linear, arr.ndim)
''', '''        lever = np.stack(
            (
                angular[..., 1] * translation[..., 2]
                - angular[..., 2] * translation[..., 1],
                angular[..., 2] * translation[..., 0]
                - angular[..., 0] * translation[..., 2],
                angular[..., 0] * translation[..., 1]
                - angular[..., 1] * translation[..., 0],
            ),
            axis=-1,
        )
        arr = arr + self._expand_singleton_axes(linear + lever, arr.ndim)
''')]),
    dict(id="velocity_frames", props=["V03", "V04"], edits=[(R, '''        try:
            reference = _resolve_rf(reference or self.parent)
            represent_in = _resolve_rf(represent_in or self.parent)
        except TypeError:
            raise ValueError(f"Frame {self.name} has no parent frame")
''', '''        reference, represent_in = self._velocity_frames(
            reference, represent_in
        )
'''), (R, '''    def lookup_twist(
''', '''    def _velocity_frames(self, *frames):
        """Resolve frames, falling back to the parent."""
        try:
            return [
                _resolve_rf(self.parent if f is None or not f else f)
                for f in frames
            ]
        except TypeError:
            raise ValueError(f"Frame {self.name} has no parent frame")

    def lookup_twist(
''')]),
    dict(id="twist_reuse", props=["V03", "V04", "S03"], edits=[(R, '''        angular, linear, twist_ts = self._match_arrays(
            [(angular, angular_ts), (linear, linear_ts)],
        )

        if return_timestamps:
            return linear, angular, twist_ts
        else:
            return linear, angular
''', '''        matched = self._match_arrays(
            ((angular, angular_ts), (linear, linear_ts))
        )
        angular, linear, twist_ts = matched

        return (
            (linear, angular, twist_ts)
            if return_timestamps
            else (linear, angular)
        )
''')]),
    dict(id="from_dataset_helper", props=["A04"], edits=[(R, '''        return cls(
            name,
            parent,
            ds[translation].transpose(*ds[timestamps].dims, ...).data,
            ds[rotation].transpose(*ds[timestamps].dims, ...).data,
            ds[timestamps].data,
            inverse=inverse,
            discrete=discrete,
        )
''', '''        time_first = ds[timestamps].dims + (...,)
        arrays = [
            ds[v].transpose(*time_first).data for v in (translation, rotation)
        ]

        return cls(
            name,
            parent,
            *arrays,
            timestamps=ds[timestamps].data,
            inverse=inverse,
            discrete=discrete,
        )
''')]),
    dict(id="register_order", props=["R01", "R02"], edits=[(R, '''    if rf.name is None:
        raise ValueError("Reference frame name cannot be None.")
    if rf.name in _registry:
        if update:
            # TODO keep children?
            if _registry[rf.name] is not rf:
                _registry[rf.name].parent = None
        else:
            raise ValueError(
                f"Reference frame with name {rf.name} is already registered. "
                f"Specify update=True to overwrite."
            )
    # TODO check if name is a cs transform?
    _registry[rf.name] = rf
''', '''    name = rf.name
    if name is None:
        raise ValueError("Reference frame name cannot be None.")

    previous = _registry.get(name)
    if previous is not None and not update:
        raise ValueError(
            f"Reference frame with name {name} is already registered. "
            f"Specify update=True to overwrite."
        )
    if previous is not None and previous is not rf:
        previous.parent = None
    # TODO check if name is a cs transform?
    _registry.update({name: rf})
'''), (R, '''    if name not in _registry:
        raise ValueError(
            "Reference frame with name " + name + " not found in registry"
        )

    _registry.pop(name)
''', '''    try:
        del _registry[name]
    except KeyError:
        raise ValueError(
            "Reference frame with name " + name + " not found in registry"
        )
''')]),
    dict(id="register_frame_flow", props=["R01", "R02"], edits=[(R, '''    try:
        _register(rf, update=update)
    except ValueError:
        rf.parent = None  # leave no trace in the tree of the parent
        raise
''', '''    registered = False
    try:
        _register(rf, update=update)
        registered = True
    finally:
        if not registered:
            rf.parent = None
''')]),
    dict(id="add_frame_axes", props=["P01"], edits=[(P, '''    if world_frame is not None:
        o = transform_points(o, outof=frame, into=world_frame)
        x = transform_points(x, outof=frame, into=world_frame)
        y = transform_points(y, outof=frame, into=world_frame)
        z = transform_points(z, outof=frame, into=world_frame)
''', '''    if world_frame is not None:
        o, x, y, z = transform_points(
            np.array([o, x, y, z]), outof=frame, into=world_frame
        )
'''), (P, '''    x_lim_new = [
        np.min((x_lim_old[0], o[0], x[0], y[0], z[0])),
        np.max((x_lim_old[1], o[0], x[0], y[0], z[0])),
    ]
    y_lim_new = [
        np.min((y_lim_old[0], o[1], x[1], y[1], z[1])),
        np.max((y_lim_old[1], o[1], x[1], y[1], z[1])),
    ]
    z_lim_new = [
        np.min((z_lim_old[0], o[2], x[2], y[2], z[2])),
        np.max((z_lim_old[1], o[2], x[2], y[2], z[2])),
    ]
    ax.set_xlim3d(x_lim_new)
    ax.set_ylim3d(y_lim_new)
    ax.set_zlim3d(z_lim_new)
''', '''    ends = np.array([o, x, y, z])
    low, high = ends.min(axis=0), ends.max(axis=0)
    ax.set_xlim3d([min(x_lim_old[0], low[0]), max(x_lim_old[1], high[0])])
    ax.set_ylim3d([min(y_lim_old[0], low[1]), max(y_lim_old[1], high[1])])
    ax.set_zlim3d([min(z_lim_old[0], low[2]), max(z_lim_old[1], high[2])])
''')]),
    dict(id="axes_equal_loop", props=["P01"], edits=[(P, '''    x_limits = ax.get_xlim3d()
    y_limits = ax.get_ylim3d()
    z_limits = ax.get_zlim3d()

    x_range = abs(x_limits[1] - x_limits[0])
    x_middle = np.mean(x_limits)
    y_range = abs(y_limits[1] - y_limits[0])
    y_middle = np.mean(y_limits)
    z_range = abs(z_limits[1] - z_limits[0])
    z_middle = np.mean(z_limits)
''', '''    limits = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
    x_range, y_range, z_range = np.abs(limits[:, 1] - limits[:, 0])
    x_middle, y_middle, z_middle = limits.mean(axis=1)
''')]),
    dict(id="plot_lines", props=["P01"], edits=[(P, '''    lines = ax.plot(arr[:, 0], arr[:, 1], arr[:, 2], fmt, **kwargs)
''', '''    lines = ax.plot(*arr.T, fmt, **kwargs)
'''), (P, '''    lines = ax.quiver(
        base[:, 0],
        base[:, 1],
        base[:, 2],
        arr[:, 0],
        arr[:, 1],
        arr[:, 2],
        **kwargs,
    )
''', '''    lines = ax.quiver(*base.T, *arr.T, **kwargs)
'''), (P, '''    lines = [
        plot_vectors(vx, base, ax, color="r", length=0.5, **kwargs),
        plot_vectors(vy, base, ax, color="g", length=0.5, **kwargs),
        plot_vectors(vz, base, ax, color="b", length=0.5, **kwargs),
    ]

    return lines
''', '''    lines = []
    for v, color in zip((vx, vy, vz), "rgb"):
        lines.append(
            plot_vectors(v, base, ax, color=color, length=0.5, **kwargs)
        )

    return lines
''')]),
    dict(id="optitrack_pose", props=["O01"], edits=[(O, '''        order = (
            meta.get("Rotation Type", "XYZ")
            .replace("X", "r")
            .replace("Y", "p")
            .replace("Z", "y")
        )
        q = from_euler_angles(rpy, order=order)
''', '''        angle_names = {"X": "r", "Y": "p", "Z": "y"}
        order = "".join(
            angle_names.get(a, a) for a in meta.get("Rotation Type", "XYZ")
        )
        q = from_euler_angles(rpy, order=order)
'''), (O, '''    if meta.get("Length Units", None) == "Centimeters":
        for name in data_dict:
            data_dict[name]["Position"] /= 100
''', '''    if meta.get("Length Units") == "Centimeters":
        for frame in data_dict.values():
            frame["Position"] = frame["Position"] * 0.01
''')]),
    dict(id="bag_read", props=["S05"], edits=[(RI, '''            return_vals = {
                "timestamps": arr[:, 0],
                "position": arr[:, 1:4],
                "orientation": arr[:, 4:8],
                "linear_velocity": arr[:, 8:11],
                "angular_velocity": arr[:, 11:],
            }
''', '''            ts_, p, q, v, w = np.split(arr, [1, 4, 8, 11], axis=1)
            return_vals = dict(
                timestamps=ts_[:, 0],
                position=p,
                orientation=q,
                linear_velocity=v,
                angular_velocity=w,
            )
'''), (RI, '''        for ts, t, r in zip(timestamps, translation, rotation):
            msg = make_transform_msg(t, r, frame, child_frame, ts)
            self._bag.write(topic, msg)
''', '''        for i in range(len(timestamps)):
            self._bag.write(
                topic,
                make_transform_msg(
                    translation[i],
                    rotation[i],
                    frame,
                    child_frame,
                    time=timestamps[i],
                ),
            )
''')]),
    dict(id="publish_sample", props=["S03"], edits=[(RT, '''            ts = _to_seconds(self.timestamps.values)[idx]
            transform = make_transform_msg(
                self.translation[idx],
                self.rotation[idx],
                self.base.name,
                self.frame.name,
                ts,
            )
            if self.pose_publisher is not None:
                pose = make_pose_msg(
                    self.translation[idx],
                    self.rotation[idx],
                    self.base.name,
                    ts,
                )
''', '''            t, r = self.translation[idx], self.rotation[idx]
            base_name, frame_name = self.base.name, self.frame.name
            ts = _to_seconds(self.timestamps.values[idx : idx + 1])[0]
            transform = make_transform_msg(
                t, r, frame_id=base_name, child_frame_id=frame_name, time=ts
            )
            if self.pose_publisher is not None:
                pose = make_pose_msg(t, r, base_name, time=ts)
''')]),
    dict(id="marker_points", props=["S04"], edits=[(RV, '''        show_every = -(-points.shape[0] // max_points)
        marker.points = [Point(*row) for row in points[::show_every]]
''', '''        n_points = len(points)
        show_every = n_points // max_points
        if n_points % max_points:
            show_every += 1
        marker.points = [
            Point(x=x, y=y, z=z)
            for i, (x, y, z) in enumerate(points)
            if i % show_every == 0
        ]
''')]),
    dict(id="play_step", props=["S06"], edits=[(RU, '''    def button_plus(name):
        s_idx.value = min(s_idx.value + (skip or step), s_idx.max)
''', '''    jump = skip if skip else step

    def button_plus(name):
        target = s_idx.value + jump
        s_idx.value = s_idx.max if target > s_idx.max else target
'''), (RU, '''        s_idx.value = max(s_idx.value - (skip or step), s_idx.min)
''', '''        target = s_idx.value - jump
        s_idx.value = s_idx.min if target < s_idx.min else target
'''), (RU, '''    interval = np.mean(np.diff(_to_seconds(timestamps))) * 1e3 / speed
''', '''    seconds = _to_seconds(timestamps)
    interval = 1e3 / speed * (seconds[1:] - seconds[:-1]).mean()
''')]),
    dict(id="same_samples", props=["T02", "T01", "I05"], edits=[(C, '''    mask = np.isin(t_in, t_out)

    return mask if np.array_equal(t_in[mask], t_out) else None
''', '''    if len(t_in) == len(t_out) and np.all(t_in == t_out):
        return np.ones(len(t_in), dtype=bool)

    requested = np.isin(t_in, t_out)
    kept = t_in[requested]
    if kept.shape != t_out.shape or np.any(kept != t_out):
        return None

    return requested
''')]),
    dict(id="keep_samples", props=["I05", "T02", "Q04"], edits=[(C, '''    if np.isnan(samples).any():
        idx = np.minimum(np.searchsorted(t_in, t_out), len(t_in) - 1)
        is_sample = t_in[idx] == t_out
        resampled[is_sample] = samples[idx[is_sample]]

    return resampled
''', '''    if not np.any(np.isnan(samples)):
        return resampled

    for i, t in enumerate(t_out):
        idx = np.searchsorted(t_in, t)
        if idx < len(t_in) and t_in[idx] == t:
            resampled[i] = samples[idx]

    return resampled
''')]),
    dict(id="resample_squad", props=["T02", "I05", "I01"], edits=[(C, '''            # TODO better way to check if quaternion
            if array.data.shape[-1] == 4:
                data = as_float_array(
                    squad(
                        as_quat_array(array.data),
                        array.timestamps.astype(float),
                        timestamps.astype(float),
                    )
                )
            else:
                # TODO method + optional scipy dependency?
                data = interp1d(
                    array.timestamps.astype(float), array.data, axis=0
                )(timestamps.astype(float))
''', '''            t_in = array.timestamps.astype(float)
            t_out = timestamps.astype(float)
            is_quaternion = array.data.shape[-1] == 4
            if not is_quaternion:
                # TODO method + optional scipy dependency?
                interpolator = interp1d(t_in, array.data, axis=0)
                data = interpolator(t_out)
            else:
                data = squad(as_quat_array(array.data), t_in, t_out)
                data = as_float_array(data)
''')]),
    dict(id="linear_diff", props=["V01"], edits=[(C, '''        dt = np.linalg.norm(
            np.diff(translation, n=2, axis=time_axis), axis=axis
        )
        dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
        linear = interp1d(
            timestamps[dt <= outlier_thresh],
            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
            axis=time_axis,
            bounds_error=False,
        )(timestamps)
''', '''        second = np.diff(np.diff(translation, axis=time_axis), axis=time_axis)
        change = np.sqrt((second * second).sum(axis=axis))
        dt = np.zeros(len(timestamps))
        dt[:-2] += change
        dt[1:-1] += change
        good = ~(dt > outlier_thresh)
        linear = interp1d(
            timestamps[good],
            linear.compress(good, axis=time_axis),
            axis=time_axis,
            bounds_error=False,
        )(timestamps)
''')]),
    dict(id="fit_shared", props=["E02", "E03", "E04"], edits=[(E, '''    # rotation matrix
    H = np.dot(v1_centered.T, v2_centered)
    U, S, Vt = np.linalg.svd(H)
    R = np.dot(Vt.T, U.T)

    # special reflection case
    if np.linalg.det(R) < 0:
        Vt[2, :] *= -1
        R = np.dot(Vt.T, U.T)

    # rotation as quaternion
    rotation = as_float_array(from_rotation_matrix(R))

    # translation
    translation = mean_v2.T - np.dot(R, mean_v1.T)
''', '''    R = _kabsch(v1_centered, v2_centered)
    rotation = as_float_array(from_rotation_matrix(R))
    translation = mean_v2 - R @ mean_v1
'''), (E, '''    v1, v2, was_dataarray = _reshape_vectors(v1, v2, axis, dim)

    # rotation matrix
    H = np.dot(v1.T, v2)
    U, S, Vt = np.linalg.svd(H)
    R = np.dot(Vt.T, U.T)

    # special reflection case
    if np.linalg.det(R) < 0:
        Vt[2, :] *= -1
        R = np.dot(Vt.T, U.T)

''', '''    v1, v2, was_dataarray = _reshape_vectors(v1, v2, axis, dim)

    R = _kabsch(v1, v2)

'''), (E, '''def best_fit_rotation(v1, v2, dim=None, axis=None):
''', '''def _kabsch(v1, v2):
    """Proper rotation matrix that best maps v1 onto v2."""
    u, _, vt = np.linalg.svd(v1.T @ v2)
    if np.linalg.det(u) * np.linalg.det(vt) < 0:
        vt = np.vstack((vt[:2], -vt[2:]))

    return vt.T @ u.T


def best_fit_rotation(v1, v2, dim=None, axis=None):
''')]),
    dict(id="accessor_qinterp", props=["Q04"], edits=[(A, '''        for c in coords_out:
            if c == interp_dim:
                coords_out[c] = t_out
            elif interp_dim in coords_out[c].dims:
                if np.issubdtype(coords_out[c].dtype, np.number):
                    coords_out[c] = coords_out[c].interp(coords)
                else:
                    coords_out[c] = coords_out[c].sel(coords, method="nearest")
''', '''        for label, coord in list(coords_out.items()):
            if label == interp_dim:
                coords_out[label] = t_out
                continue
            if interp_dim not in coord.dims:
                continue
            is_number = np.issubdtype(coord.dtype, np.number)
            coords_out[label] = (
                coord.interp({interp_dim: t_out})
                if is_number
                else coord.sel({interp_dim: t_out}, method="nearest")
            )
''')]),
    dict(id="accessor_qinv", props=["Q01"], edits=[(A, '''        qaxis = self._obj.dims.index(qdim)
        inverse = self._obj.copy()
        inverse.values = qinv(self._obj.values, qaxis)

        return inverse
''', '''        return self._obj.copy(
            data=qinv(
                self._obj.values, qaxis=self._obj.get_axis_num(qdim)
            )
        )
''')]),
    dict(id="get_range_np", props=["T01", "T02", "T03"], edits=[(C, '''        elements = arrays + continuous_frames
        else:
            elements = continuous_frames + arrays

        if len(elements):
            # The first element with timestamps determines the timestamps
            # TODO check if this fails for datetime timestamps
            timestamps = elements[0].timestamps
            timestamps = timestamps[
                (timestamps >= ts_range[0]) & (timestamps <= ts_range[-1])
            ]
''', '''        elements = arrays + continuous_frames
        else:
            elements = continuous_frames + arrays

        if elements:
            first, last = ts_range
            sampling = elements[0].timestamps
            inside = np.logical_and(sampling >= first, sampling <= last)
            timestamps = sampling[inside]
''')]),
    dict(id="compose_matrixfree", props=["A01", "A02", "T02", "T03"], edits=[(C, '''            if frame.inverse:
                translation = rotate_vectors(
                    1 / as_quat_array(r), translation - np.array(t)
                )
                rotation = 1 / as_quat_array(r) * rotation
            else:
                translation = rotate_vectors(
                    as_quat_array(r), translation
                ) + np.array(t)
                rotation = as_quat_array(r) * rotation
''', '''            q = as_quat_array(r)
            if frame.inverse:
                q = q ** -1
                translation = rotate_vectors(q, translation - t)
            else:
                translation = rotate_vectors(q, translation) + t
            rotation = q * rotation
''')]),
    dict(id="compose_conj", props=["A01", "A02"], edits=[(C, '''                rotation = 1 / as_quat_array(r) * rotation
''', '''                q = as_quat_array(r)
                rotation = np.conjugate(q) / np.abs(q) ** 2 * rotation
''')]),
    dict(id="angular_valid", props=["V02", "V03"], edits=[(C, '''        valid_idx = [slice(None)] * r.ndim
        valid_idx[time_axis] = ~nan_idx
        valid_idx = tuple(valid_idx)
        dq = as_quat_array(
            derivative(r[valid_idx], timestamps[~nan_idx], axis=time_axis)
        )
        q = as_quat_array(r[valid_idx])
        angular = np.nan * np.ones_like(r[..., :-1])
        angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
''', '''        valid = np.flatnonzero(~nan_idx)
        r_valid = np.take(r, valid, axis=time_axis)
        dq = as_quat_array(
            derivative(r_valid, timestamps[valid], axis=time_axis)
        )
        q = as_quat_array(r_valid)
        angular = np.full(r.shape[:-1] + (3,), np.nan)
        body_rate = as_float_array(np.conjugate(q) * dq * 2)[..., 1:]
        valid_idx = (slice(None),) * time_axis + (valid,)
        angular[valid_idx] = body_rate
''')]),
    dict(id="lookup_pose_shared", props=["A03", "I03", "T02"], edits=[(I, '''    reference = _resolve_rf(reference)
    frame = _resolve_rf(frame)
    position, orientation, timestamps = frame.lookup_transform(reference)

    if as_dataset:
        return _make_transform_or_pose_dataset(
            position, orientation, reference, timestamps, pose=True
        )
    elif return_timestamps:
        return position, orientation, timestamps
    else:
        return position, orientation
''', '''    position, orientation, timestamps = lookup_transform(
        frame, reference, return_timestamps=True
    )

    if as_dataset:
        return _make_transform_or_pose_dataset(
            position,
            orientation,
            frame=_resolve_rf(reference),
            timestamps=timestamps,
            pose=True,
        )

    pose = position, orientation
    return pose + (timestamps,) if return_timestamps else pose
''')]),
    dict(id="euler_products", props=["Q05", "O01"], edits=[(U, '''    # chain rotors
    q = quaternion(1, 0, 0, 0)
    for r in rotors:
        if r is not None:
            q = q * r
''', '''    # chain rotors
    q = reduce(
        operator.mul,
        filter(lambda rotor: rotor is not None, rotors),
        quaternion(1, 0, 0, 0),
    )
''')]),
    dict(id="qmean_outer", props=["Q03"], edits=[(U, '''    # compute outer product of quaternion elements
    q = q[..., np.newaxis]
    qt = np.swapaxes(q, -2, -1)
    A = np.mean(q * qt, axis=axis)

    # compute largest eigenvector of A
    l, v = np.linalg.eigh(A)
    qm = v[..., -1]
''', '''    # sum of the outer products, same eigenvectors as their mean
    outer = np.expand_dims(q, -1) * np.expand_dims(q, -2)
    _, eigenvectors = np.linalg.eigh(outer.sum(axis=axis))
    qm = eigenvectors[..., :, -1]
''')]),
    dict(id="icp_for_else", props=["E04"], edits=[(E, '''    prev_error = 0

    for i in range(max_iterations):
''', '''    prev_error = 0.0
    iteration = 0

    while iteration < max_iterations:
        iteration += 1
'''), (E, '''        # update the current source
        v1_new = rotate_vectors(r, v1_new) + t

        # check error
        mean_error = np.mean(distances)
        if np.abs(prev_error - mean_error) < tolerance:
            break
        prev_error = mean_error
''', '''        # update the current source
        v1_new = rotate_vectors(r, v1_new)
        v1_new += t

        # check error
        mean_error = distances.sum() / len(distances)
        converged = -tolerance < mean_error - prev_error < tolerance
        prev_error = mean_error
        if converged:
            break
''')]),
]
