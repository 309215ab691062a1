"""CosmoSIS stand-ins: option and data blocks with the documented behaviour of cosmosis.datablock.DataBlock."""
OPT = 'module_options'
COSMO = 'cosmological_parameters'


class BlockError(ValueError):
    pass


class BlockNameNotFound(BlockError):
    pass


class BlockWrongValueType(BlockError):
    pass


class Block:
    """get_<type> without a default raises when the value is absent or of another type; put_* adds (an existing name is an error); replace_* needs an existing name."""

    def __init__(self, values=None):
        self.d, self.meta, self.log, self.axes = {}, {}, [], []
        for k, v in (values or {}).items():
            self.d[self._k(*k)] = v

    @staticmethod
    def _k(section, name):
        return (str(section).lower(), str(name).lower())

    def has_value(self, section, name):
        return self._k(section, name) in self.d

    def has_section(self, section):
        return any(k[0] == str(section).lower() for k in self.d)

    def _get(self, section, name, default, ok, conv=lambda v: v):
        k = self._k(section, name)
        if k not in self.d:
            if default is None:
                raise BlockNameNotFound(k)
            return default
        v = self.d[k]
        if not ok(v):
            raise BlockWrongValueType(k)
        return conv(v)

    def get(self, section, name):
        k = self._k(section, name)
        if k not in self.d:
            raise BlockNameNotFound(k)
        return self.d[k]

    def get_double(self, section, name, default=None):
        return self._get(section, name, default, lambda v: not isinstance(v, (str, bool, list)) and getattr(v, 'ndim', 0) == 0)

    def get_int(self, section, name, default=None):
        return self._get(section, name, default, lambda v: isinstance(v, int) and not isinstance(v, bool))

    def get_bool(self, section, name, default=None):
        return self._get(section, name, default, lambda v: isinstance(v, bool))

    def get_string(self, section, name, default=None):
        return self._get(section, name, default, lambda v: isinstance(v, str))

    def get_double_array_1d(self, section, name):
        return self.get(section, name)

    get_double_array_nd = get_double_array_1d

    def __getitem__(self, key):
        return self.get(*key)

    def __contains__(self, key):
        return self.has_value(*key)

    def __setitem__(self, key, value):
        self.d[self._k(*key)] = value
        self.log.append(self._k(*key))

    def put(self, section, name, value, **meta):
        k = self._k(section, name)
        if k in self.d:
            raise BlockError(f'{k} already exists')
        self[section, name] = value

    put_double = put_int = put_string = put_bool = put_double_array_1d = put_double_array_nd = put_int_array_1d = put

    def _replace(self, section, name, value):
        k = self._k(section, name)
        if k not in self.d:
            raise BlockNameNotFound(k)
        self[section, name] = value

    replace = replace_double = replace_int = replace_string = replace_double_array_1d = replace_double_array_nd = _replace

    def put_grid(self, section, name_x, x, name_y, y, name_z, z):
        if tuple(z.shape) != (len(x), len(y)):
            raise ValueError('grid of the wrong shape')
        for n, v in ((name_x, x), (name_y, y)):
            if self.has_value(section, n):
                self.axes.append((section, n, self[section, n], v))      # grids in one section share their axes
            else:
                self.put(section, n, v)
        self.put(section, name_z, z)
        self.meta[str(section).lower(), '_grid', name_z] = (name_x, name_y)

    replace_grid = put_grid

    def get_grid(self, section, name_x, name_y, name_z):
        return self[section, name_x], self[section, name_y], self[section, name_z]

    def get_metadata(self, section, name, key):
        return self.meta[self._k(section, name) + (key,)]

    def put_metadata(self, section, name, key, value):
        self.meta[self._k(section, name) + (key,)] = value

    replace_metadata = put_metadata

    def sections(self):
        return sorted({k[0] for k in self.d})


class Names:
    cosmological_parameters = COSMO

    def __getattr__(self, n):
        return n


def stand_in(env):
    attrs = dict(option_section=OPT, names=Names(), DataBlock=Block, BlockError=BlockError, BlockNameNotFound=BlockNameNotFound, BlockWrongValueType=BlockWrongValueType)
    env.env_modules['cosmosis.datablock'] = attrs
    env.env_modules['cosmosis'] = dict(DataBlock=Block)


def options(**kw):
    return Block({(OPT, k): v for k, v in kw.items()})
