import lines_props, values_props  # noqa
