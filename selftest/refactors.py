"""Specificity corpus: edits of NRWAL that keep its behaviour.  Every check has to stay quiet on each of them.

Same format as mutants.py; run with: python3 selftest/run_refactors.py [name-prefix...].  No check reads this file.
"""
from mutants import C, D, E, G, U

R = []


def r(name, *edits):
    R.append((name, None, edits))


READ_G = """            if group.endswith('.json'):
                with open(group, 'r') as f:
                    group = json.load(f)

            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
"""
READ_C = READ_G.replace('group', 'config')
LIST = """        for name in sorted(os.listdir(eqn_dir)):
            path = os.path.join(eqn_dir, name)

            is_directory = cls._is_dir(path)
"""

r('read_helper', (G, READ_G, """            if group.endswith(('.json', '.yml', '.yaml')):
                group = read_file(group)
"""), (C, READ_C, """            if config.endswith(('.json', '.yml', '.yaml')):
                config = read_file(config)
"""), (U, "def find_parens(s):", """def read_file(path):
    \"\"\"Load a json or yaml file\"\"\"
    import json
    import yaml
    with open(path, encoding='utf-8') as f:
        return json.load(f) if path.endswith('.json') else yaml.safe_load(f)


def find_parens(s):"""), (G, "from NRWAL.utilities.utilities import find_parens\n", "from NRWAL.utilities.utilities import find_parens, read_file\n"),
  (C, "from NRWAL.utilities.utilities import find_parens\n", "from NRWAL.utilities.utilities import find_parens, read_file\n"))
r('read_text', (G, "                    group = yaml.safe_load(f)\n", "                    text = f.read()\n                group = yaml.safe_load(text)\n"),
  (G, "                    group = json.load(f)\n", "                    group = json.loads(f.read())\n"),
  (C, "                    config = yaml.safe_load(f)\n", "                    text = f.read()\n                config = yaml.safe_load(text)\n"))
r('pathlib', (G, READ_G, """            from pathlib import Path
            path = Path(group)
            if path.suffix == '.json':
                group = json.loads(path.read_text())
            elif path.suffix in ('.yml', '.yaml'):
                with path.open() as f:
                    group = yaml.safe_load(f)
"""), (D, LIST, """        from pathlib import Path
        for entry in sorted(Path(eqn_dir).iterdir(), key=lambda p: p.name):
            name, path = entry.name, str(entry)
            is_directory = cls._is_dir(path)
"""))
r('scandir', (D, LIST, """        with os.scandir(eqn_dir) as it:
            names = sorted(e.name for e in it)
        for name in names:
            path = os.path.join(eqn_dir, name)
            is_directory = cls._is_dir(path)
"""))
r('scandir_isdir', (D, LIST, """        with os.scandir(eqn_dir) as it:
            entries = sorted(it, key=lambda e: e.name)
        for entry in entries:
            name = entry.name
            path = entry.path
            is_directory = cls._is_dir(entry)
"""))
r('try_close', (G, "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n", """                f = open(group, 'r')
                try:
                    group = yaml.safe_load(f)
                finally:
                    f.close()
"""))
r('binary', (G, "                with open(group, 'r') as f:\n                    group = json.load(f)\n", "                with open(group, 'rb') as f:\n                    group = json.loads(f.read().decode('utf-8'))\n"),
  (C, "                with open(config, 'r') as f:\n                    config = yaml.safe_load(f)\n", "                with open(config, 'rb') as f:\n                    config = yaml.safe_load(f.read().decode('utf-8'))\n"))
r('csafe', (G, "yaml.safe_load(f)", "yaml.load(f, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))"),
  (C, "yaml.safe_load(f)", "yaml.load(f, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))"))
r('lru_variables', (E, """    @classmethod
    def parse_variables(cls, expression):
        \"\"\"Parse variable names from an expression string.\"\"\"
""", """    @classmethod
    def parse_variables(cls, expression):
        \"\"\"Parse variable names from an expression string.\"\"\"
        return list(_parse_cached(cls, str(expression)))

    @classmethod
    def _parse_variables(cls, expression):
"""), (E, "class Equation:\n", """@functools.lru_cache(maxsize=None)
def _parse_cached(cls, expression):
    return tuple(cls._parse_variables(expression))


class Equation:
"""), (E, "import copy\n", "import copy\nimport functools\n"))
r('parse_loop', (E, """        variables = [sub.strip(',')
                     for sub in re.split(regex_pattern, str(expression))
                     if sub.strip(',')
                     and cls.is_variable(sub)
                     and not cls.is_num(sub.strip(','))
                     and not cls.is_method(sub)]
        variables = sorted(list(set(variables)))
        return variables
""", """        names = set()
        for sub in re.split(regex_pattern, str(expression)):
            name = sub.strip(',')
            if not name or not cls.is_variable(sub):
                continue
            if cls.is_num(name) or cls.is_method(sub):
                continue
            names.add(name)
        return sorted(names)
"""))
r('vars_memo', (E, "        return self.parse_variables(self._eqn)\n", """        cached = self.__dict__.get('_variables')
        if cached is None or cached[0] != self._eqn:
            cached = (self._eqn, self.parse_variables(self._eqn))
            self._variables = cached
        return list(cached[1])
"""))
r('slots', (E, "    ILLEGAL = ('import", "    __slots__ = ('_default_variables', '_str', '_base_name', '_eqn')\n\n    ILLEGAL = ('import"))
r('compile', (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            code = compile(str(self._eqn).strip(), '<nrwal>', 'eval')\n            out = eval(code, globals(), kwargs)\n"))
r('rebind_defaults', (E, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            self._default_variables = {**self._default_variables,\n                                       **copy.deepcopy(var_dict)}\n"))
r('merge_loop', (E, "        out.update(kwargs)\n        return out\n", "        for name, value in kwargs.items():\n            out[name] = value\n        return out\n"),
  (E, "        if var_group is None:\n            out = {}\n        else:\n            out = copy.deepcopy(var_group)\n", "        out = {} if var_group is None else copy.deepcopy(var_group)\n"))
r('circ_iter', (C, "        for var in all_vars:\n            if var in config:\n                cls._check_circ_ref(orig_name, config[var], config,\n                                    current_name=var, msg=msg)\n", """        seen = set()
        stack = [(v, msg) for v in all_vars]
        while stack:
            var, trail = stack.pop()
            if var not in config or var in seen:
                continue
            seen.add(var)
            trail += ' -> {}'.format(var)
            below = Equation.parse_variables(config[var])
            if orig_name in below:
                trail += (', and ending with expression "{}": {}'
                          .format(var, config[var]))
                logger.error(trail)
                raise RuntimeError(trail)
            stack += [(v, trail) for v in below]
"""))
r('eval_progress', (C, """            # every pass solves at least one more entry
            i += 1
            if i > len(self._config):
""", """            progress = len(self._outputs) > n_before
            n_before = len(self._outputs)
            if not progress:
"""), (C, "        i = 0\n        while not self.solved:\n", "        n_before = 0\n        while not self.solved:\n"))
r('eval_helper', (C, """                    kwargs = copy.deepcopy(self.global_variables)
                    kwargs.update(self.inputs)
                    kwargs.update(self._outputs)
""", """                    kwargs = self._namespace()
"""), (C, "    def eval(self, inputs=None):\n", """    def _namespace(self):
        \"\"\"All values that an entry can use\"\"\"
        return {**copy.deepcopy(self.global_variables), **self.inputs,
                **self._outputs}

    def eval(self, inputs=None):
"""))
r('eval_local', (C, "        return self._outputs\n\n    @property\n    def global_v", "        return self._outputs\n\n    @property\n    def global_v"),
  (C, "                        self._outputs[k] = v.evaluate(**kwargs)\n", "                        result = v.evaluate(**kwargs)\n"),
  (C, "                        raise RuntimeError(msg) from e\n\n                elif isinstance(v, dict)", "                        raise RuntimeError(msg) from e\n                    self._outputs[k] = result\n\n                elif isinstance(v, dict)"))
r('inputs_helper', (C, """            if isinstance(arg, dict):
                keys = arg.keys()
            elif isinstance(arg, pd.DataFrame):
                keys = arg.columns.values

            new = {}
            for k in keys:
                if isinstance(arg, dict):
                    v = arg[k]
                elif isinstance(arg, pd.DataFrame):
                    v = arg[k].values.flatten()

                if isinstance(v, np.ndarray):
                    if Equation.is_num(v[0]):
                        v = v.astype(np.float32)
                elif isinstance(v, int):
                    v = float(v)

                new[k] = v
""", """            if isinstance(arg, pd.DataFrame):
                arg = {k: arg[k].values.flatten() for k in arg.columns}
            new = {k: self._as_input(v) for k, v in arg.items()}
"""), (C, "    @property\n    def outputs(self):\n", """    @staticmethod
    def _as_input(v):
        \"\"\"Convert one input value\"\"\"
        if isinstance(v, np.ndarray):
            return v.astype(np.float32) if Equation.is_num(v[0]) else v
        return float(v) if isinstance(v, int) else v

    @property
    def outputs(self):
"""))
r('inputs_rebind', (C, "            self._inputs.update(Equation._check_input_args(new))\n", "            new = Equation._check_input_args(new)\n            self._inputs = {**self._inputs, **new}\n"))
r('reset_pop', (C, "        elif key in self._outputs:\n            del self._outputs[key]\n", "        else:\n            self._outputs.pop(key, None)\n"))
r('solved_all', (C, "        return not any(self.to_be_solved)\n", "        return all(k in self._outputs or k in self.global_variables\n                   for k, v in self._config.items()\n                   if isinstance(v, Equation))\n"),
  (C, "        return not any(self.missing_inputs)\n", "        return len(self.missing_inputs) == 0\n"))
r('required_set', (C, """        names = []
        for eqn in self.values():
            if isinstance(eqn, Equation):
                names += [v for v in eqn.variables
                          if v not in self.global_variables
                          and v not in self._config
                          and v not in eqn.default_variables]

        return sorted(list(set(names)))
""", """        names = set()
        for eqn in filter(lambda x: isinstance(x, Equation), self.values()):
            names |= set(eqn.variables) - set(eqn.default_variables)

        return sorted(names - set(self.global_variables) - set(self._config))
"""))
r('str_join', (D, "        for group in (var_groups, eqn_groups, dirs):\n            for v in group:\n                if v._base_name is not None:\n                    s.append(v._base_name)\n                s += ['\\t' + x for x in str(v).split('\\n')[1:]]\n", "        for v in var_groups + eqn_groups + dirs:\n            if v._base_name is not None:\n                s.append(v._base_name)\n            for line in str(v).splitlines()[1:]:\n                s.append('\\t' + line)\n"),
  (G, "        for k, v in self.items():\n            if isinstance(v, Equation):\n                s.append(str(v))\n            else:\n                s.append(str(k))\n                s += ['\\t' + x for x in str(v).split('\\n')[1:]]\n", "        for k, v in self._group.items():\n            if not isinstance(v, Equation):\n                s.append(str(k))\n                s.extend('\\t' + x for x in str(v).split('\\n')[1:])\n            else:\n                s.append(str(v))\n"))
r('getitem_helper', (D, """        if '::' in str(key):
            keys = key.split('::')
        else:
            keys = [key]

        keys = [str(k) if not str(k).endswith(('.json', '.yml', '.yaml'))
                else os.path.splitext(str(k))[0]
                for k in keys]
""", """        keys = self._split_key(key)
"""), (D, "    def __repr__(self):\n", """    @staticmethod
    def _split_key(key):
        \"\"\"Parts of a key without file extensions\"\"\"
        parts = []
        for part in str(key).split('::'):
            stem, ext = os.path.splitext(part)
            parts.append(stem if ext in ('.json', '.yml', '.yaml') else part)
        return parts

    def __repr__(self):
"""))
r('nn_sorted', (G, """                eqn_pow_diffs = np.abs(req_mw - np.array(eqn_powers))
                indices = np.argsort(eqn_pow_diffs)
                eqn_keys = list(np.array(eqn_keys)[indices])
                eqn_powers = list(np.array(eqn_powers)[indices])
""", """                diffs = np.abs(req_mw - np.array(eqn_powers))
                indices = np.argsort(diffs)
                eqn_keys = [eqn_keys[i] for i in indices]
                eqn_powers = [eqn_powers[i] for i in indices]
"""))
r('math_helper', (E, """        if not self.is_num(arg1) and not self.is_variable(arg1):
            arg1 = '({})'.format(arg1)
        elif operator == '**' and arg1.strip().startswith('-'):
            arg1 = '({})'.format(arg1)
        if not self.is_num(arg2) and not self.is_variable(arg2):
            arg2 = '({})'.format(arg2)
""", """        if not (self.is_num(arg1) or self.is_variable(arg1)) or (
                operator == '**' and arg1.strip().startswith('-')):
            arg1 = f'({arg1})'
        if not (self.is_num(arg2) or self.is_variable(arg2)):
            arg2 = f'({arg2})'
"""))
r('always_parens', (E, """        if not self.is_num(arg1) and not self.is_variable(arg1):
            arg1 = '({})'.format(arg1)
        elif operator""", """        if not self.is_variable(arg1):
            arg1 = '({})'.format(arg1)
        elif operator"""))
r('add_helper', (G, "        out = copy.deepcopy(self)\n        out._group.update(copy.deepcopy(other._group))\n        out.set_default_variables(other._default_variables)\n", "        out = copy.deepcopy(self)\n        for key, value in other.items():\n            out._group[key] = copy.deepcopy(value)\n        out.set_default_variables(other.default_variables)\n"),
  (D, "        out = copy.deepcopy(self)\n        out._eqns.update(copy.deepcopy(other._eqns))\n", "        out = copy.deepcopy(self)\n        out._eqns = {**out._eqns, **copy.deepcopy(other._eqns)}\n"))
r('defaults_helper', (D, """        for v in self.values():
            if isinstance(v, EquationDirectory):
                v.set_default_variables(var_group, force_update=force_update)
            elif isinstance(v, (EquationGroup, Equation)):
                v.set_default_variables(var_group)
""", """        for v in self.values():
            if isinstance(v, VariableGroup):
                continue
            if isinstance(v, EquationDirectory):
                v.set_default_variables(dict(var_group), force_update)
            else:
                v.set_default_variables(var_group)
"""))
r('pointer_helper', (C, """                temp = value.partition('::')
                fp_other, other_key = temp[0], temp[2]
                fp_other = os.path.join(config_dir, fp_other)

                msg = 'Config pointer file not found: {}'.format(fp_other)
                assert os.path.exists(fp_other), msg

                config[key] = cls._load_config(fp_other)[0][other_key]
""", """                config[key] = cls._follow_pointer(config_dir, value)
"""), (C, "    @staticmethod\n    def _parse_global_variables(config):\n", """    @classmethod
    def _follow_pointer(cls, config_dir, value):
        \"\"\"Get the entry of another config file\"\"\"
        name, _, other_key = value.partition('::')
        path = os.path.join(config_dir, name)
        if not os.path.exists(path):
            msg = 'Config pointer file not found: {}'.format(path)
            raise FileNotFoundError(msg)
        other, _ = cls._load_config(path)
        return other[other_key]

    @staticmethod
    def _parse_global_variables(config):
"""))
r('pointer_cycle', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", """                other = cls._load_config(fp_other)[0]
                if other_key not in other:
                    raise KeyError(other_key)
                config[key] = other[other_key]
"""))
r('gvars_comp', (C, """        gvars = {}
        for k, v in config.items():
            if Equation.is_num(v):
                gvars[k] = float(v)

        return gvars
""", """        return {k: float(v) for k, v in config.items() if Equation.is_num(v)}
"""))
r('lock_memo', (E, "        return self.parse_variables(self._eqn)\n", """        with _LOCK:
            if self._eqn not in _MEMO:
                _MEMO[self._eqn] = tuple(self.parse_variables(self._eqn))
            return list(_MEMO[self._eqn])
"""), (E, "class Equation:\n", "_LOCK = threading.Lock()\n_MEMO = {}\n\n\nclass Equation:\n"), (E, "import copy\n", "import copy\nimport threading\n"))
r('timing_log', (C, "        config, eqn_dir = self._load_config(config)\n", "        import time\n        t0 = time.perf_counter()\n        config, eqn_dir = self._load_config(config)\n        logger.debug('Loaded the config in %.3f s at %s',\n                     time.perf_counter() - t0, time.time())\n"))
r('err_from', (D, "                    logger.exception(msg)\n                    raise RuntimeError(msg)\n", "                    logger.error(msg)\n                    raise RuntimeError(msg) from e\n"))
r('subst_helper', (G, """                for var in [v for v in eqn.variables if v in group]:
                    repl_str = '({})'.format(group[var].full)
                    # only whole names, not e.g. "area" in "area_total"
                    pattern = r'(?<![\\w.]){}(?![\\w.])'.format(re.escape(var))
                    new_eqn = re.sub(pattern, lambda _, s=repl_str: s,
                                     eqn.full)
                    group[group_key] = eqn = eqn.replace_equation(new_eqn)
                    working = True
""", """                names = [v for v in eqn.variables if v in group]
                for var in names:
                    text = self._insert(eqn.full, var, group[var].full)
                    eqn = eqn.replace_equation(text)
                group[group_key] = eqn
                working = working or bool(names)
"""), (G, "    @property\n    def default_variables(self):\n", """    @staticmethod
    def _insert(text, name, eqn):
        \"\"\"Replace a name in text by an equation in parentheses\"\"\"
        pattern = re.compile(r'(?<![\\w.])' + re.escape(name) + r'(?![\\w.])')
        return pattern.sub(lambda _: '(' + eqn + ')', text)

    @property
    def default_variables(self):
"""))
r('super_parse', (G, "            if isinstance(v, (str, int, float)):\n                group[k] = Equation(v, name=k)\n\n            elif isinstance(v, dict):\n                cls = self.__class__\n                group[k] = cls(\n                    v, name=k, interp_extrap_power=self._interp_extrap_power,\n                    use_nearest_power=self._use_nearest_power,\n                    interp_extrap_year=self._interp_extrap_year,\n                    use_nearest_year=self._use_nearest_year)\n", "            if isinstance(v, dict):\n                flags = {x: getattr(self, '_' + x) for x in (\n                    'interp_extrap_power', 'use_nearest_power',\n                    'interp_extrap_year', 'use_nearest_year')}\n                group[k] = type(self)(v, name=k, **flags)\n\n            elif isinstance(v, (str, int, float)):\n                group[k] = Equation(v, name=k)\n"))
r('dir_flags', (D, """                obj = cls(path, interp_extrap_power=interp_extrap_power,
                          use_nearest_power=use_nearest_power,
                          interp_extrap_year=interp_extrap_year,
                          use_nearest_year=use_nearest_year)
                if any(obj.keys()):
                    eqns[name] = obj
""", """                obj = EquationDirectory(path, interp_extrap_power,
                                        use_nearest_power,
                                        interp_extrap_year, use_nearest_year)
                if len(obj.keys()) > 0:
                    eqns[name] = obj
"""))
r('getattr_get', (C, "        if key in self._outputs:\n            return self._outputs[key]\n        else:\n            return self._config[key]\n", "        try:\n            return self._outputs[key]\n        except KeyError:\n            return self._config[key]\n"))
r('copy_method', (E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = {**copy.deepcopy(self._default_variables),\n                    **copy.deepcopy(other._default_variables)}\n"))
r('getstate', (C, "    def __repr__(self):\n        return str(self)\n", "    def __getstate__(self):\n        return self.__dict__.copy()\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n\n    def __repr__(self):\n        return str(self)\n"))
r('one_pass', (C, "        for name, expression in config.items():\n            self._check_circ_ref(name, expression, config)\n", "        for name in config:\n            self._check_circ_ref(name, config[name], config)\n"))
r('eager_dir', (D, "        self._base_name = os.path.basename(os.path.abspath(eqn_dir))\n        self._dir_name = os.path.dirname(os.path.abspath(eqn_dir))\n", "        eqn_dir = os.path.abspath(eqn_dir)\n        self._dir_name, self._base_name = os.path.split(eqn_dir)\n"))
r('copy_dict', (C, "        config = copy.deepcopy(config)\n", "        config = dict(copy.deepcopy(config))\n"))
r('check_before', (G, "            if not os.path.exists(group):\n                msg", "            if not os.path.isfile(group):\n                msg"))
r('lock_try', (E, "        return self.parse_variables(self._eqn)\n", """        _LOCK.acquire()
        try:
            if self._eqn not in _MEMO:
                _MEMO[self._eqn] = tuple(self.parse_variables(self._eqn))
            return list(_MEMO[self._eqn])
        finally:
            _LOCK.release()
"""), (E, "class Equation:\n", "_LOCK = threading.RLock()\n_MEMO = {}\n\n\nclass Equation:\n"), (E, "import copy\n", "import copy\nimport threading\n"))
r('finally_state', (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", """            old = np.seterr(all='ignore')
            try:
                out = eval(str(self._eqn), globals(), kwargs)
            finally:
                np.seterr(**old)
"""))
