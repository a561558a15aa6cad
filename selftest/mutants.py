"""Sensitivity corpus: small behaviour-changing edits of NRWAL, each meant to break one property.

A mutant is (name, property, [(file, old, new), ...]).  run_mutants.py applies each one to a scratch copy,
runs the repository's tests and then the property's quick check against the copy.  No check reads this file.
"""
E, G, D, C, U = ('NRWAL/handlers/equations.py', 'NRWAL/handlers/groups.py', 'NRWAL/handlers/directories.py',
                 'NRWAL/handlers/config.py', 'NRWAL/utilities/utilities.py')
M = []


def m(name, prop, *edits):
    M.append((name, prop, edits))


# ---- C01
m('c01_empty_yaml', 'C01', (G, "                    group = yaml.safe_load(f)\n", "                    group = yaml.safe_load(f) or {}\n"))
m('c01_skip_oserror', 'C01', (D, """                except Exception as e:
                    msg = ('Could not parse an EquationGroup from '""", """                except OSError as e:
                    logger.warning('Skipping unreadable %s: %s', name, e)
                except Exception as e:
                    msg = ('Could not parse an EquationGroup from '"""))
m('c01_empty_config', 'C01', (C, "                    config = yaml.safe_load(f)\n", "                    config = yaml.safe_load(f) or {}\n"))
m('c01_errors_ignore', 'C01', (G, """            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r') as f:""", """            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r', errors='ignore') as f:"""))
m('c01_pointer_get', 'C01', (C, "config[key] = cls._load_config(fp_other)[0][other_key]",
                             "config[key] = cls._load_config(fp_other)[0].get(other_key, 0)"))
m('c01_listdir_swallow', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", """        try:
            names = sorted(os.listdir(eqn_dir))
        except PermissionError:
            logger.warning('No access to %s', eqn_dir)
            names = []
        for name in names:
"""))
m('c01_isfile', 'C01', (D, "            elif type_check and not ignore_check:\n", "            elif type_check and not ignore_check and os.path.isfile(path):\n"))
m('c01_var_truncate', 'C01', (G, """            if not isinstance(v, float):
                msg = ('Cannot use variable group value that is not a '""", """            if v is None:
                group[k] = v = 0.0
            if not isinstance(v, float):
                msg = ('Cannot use variable group value that is not a '"""))
m('c01_read_limit', 'C01', (G, "                    group = json.load(f)\n", "                    group = json.JSONDecoder().raw_decode(f.read())[0]\n"))
m('c01_multidoc', 'C01', (G, "                    group = yaml.safe_load(f)\n", "                    group = next(yaml.safe_load_all(f))\n"))
m('c01_none_value', 'C01', (G, "        group = {str(k): v for k, v in group.items()}\n", "        group = {str(k): v for k, v in group.items() if v is not None}\n"))
m('c01_readline', 'C01', (G, "                    group = yaml.safe_load(f)\n", "                    group = yaml.safe_load(f.read(8192))\n"))
m('c01_pointer_oserror', 'C01', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", """                try:
                    config[key] = cls._load_config(fp_other)[0][other_key]
                except OSError as e:
                    logger.exception(e)
"""))

# ---- C02
m('c02_loading_stack', 'C02', (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _LOADING = []\n"),
  (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", """                assert len(cls._LOADING) < 20, 'Config pointers nested too deep'
                cls._LOADING.append(fp_other)
                config[key] = cls._load_config(fp_other)[0][other_key]
                cls._LOADING.remove(fp_other)
"""))
m('c02_loading_set', 'C02', (D, "        eqns = {}\n        for name in sorted", "        cls._LOADING.add(os.path.abspath(eqn_dir))\n        eqns = {}\n        for name in sorted"),
  (D, "            if is_directory and not ignore_check:\n", "            if (is_directory and not ignore_check\n                    and os.path.abspath(path) not in cls._LOADING):\n"),
  (D, "        return eqns\n\n    @staticmethod\n    def _is_dir", "        cls._LOADING.discard(os.path.abspath(eqn_dir))\n        return eqns\n\n    @staticmethod\n    def _is_dir"),
  (D, "    def __init__(self, eqn_dir,", "    _LOADING = set()\n\n    def __init__(self, eqn_dir,"))
m('c02_leak_open', 'C02', (G, """                with open(group, 'r') as f:
                    group = json.load(f)
""", """                f = open(group, 'r')
                group = json.load(f)
                f.close()
"""))
m('c02_chdir', 'C02', (C, "                fp_other = os.path.join(config_dir, fp_other)\n", "                cwd = os.getcwd()\n                os.chdir(config_dir)\n                fp_other = os.path.abspath(fp_other)\n"),
  (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                config[key] = cls._load_config(fp_other)[0][other_key]\n                os.chdir(cwd)\n"))
m('c02_missing_cache', 'C02', (G, """            if not os.path.exists(group):
                msg = 'Cannot find equation file path: {}'.format(group)
""", """            if group in _MISSING or not os.path.exists(group):
                _MISSING.add(group)
                msg = 'Cannot find equation file path: {}'.format(group)
"""), (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_MISSING = set()\n"))
m('c02_dict_inplace', 'C02', (G, "        group = {str(k): v for k, v in group.items()}\n", "        for k in [k for k in group if not isinstance(k, str)]:\n            group[str(k)] = group.pop(k)\n"))
m('c02_dict_inplace2', 'C02', (G, "        group = {str(k): v for k, v in group.items()}\n", "        if not all(isinstance(k, str) for k in group):\n            group = {str(k): v for k, v in group.items()}\n"))

# ---- C03
CACHE = (G, """            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
""")
m('c03_cache_path', 'C03', (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_FILES = {}\n"),
  CACHE + ("""            elif group.endswith(('.yml', '.yaml')):
                if os.path.abspath(group) not in _FILES:
                    with open(group, 'r') as f:
                        _FILES[os.path.abspath(group)] = yaml.safe_load(f)
                group = _FILES[os.path.abspath(group)]
""",))
m('c03_cache_stat', 'C03', (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_FILES = {}\n"),
  CACHE + ("""            elif group.endswith(('.yml', '.yaml')):
                st = os.stat(group)
                key = (os.path.abspath(group), st.st_mtime, st.st_size)
                if key not in _FILES:
                    with open(group, 'r') as f:
                        _FILES[key] = yaml.safe_load(f)
                group = _FILES[key]
""",))
m('c03_cache_inode', 'C03', (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_FILES = {}\n"),
  CACHE + ("""            elif group.endswith(('.yml', '.yaml')):
                st = os.stat(group)
                key = (st.st_dev, st.st_ino, st.st_mtime_ns, st.st_size)
                if key not in _FILES:
                    with open(group, 'r') as f:
                        _FILES[key] = yaml.safe_load(f)
                group = copy.deepcopy(_FILES[key])
""",))
m('c03_pointer_cache', 'C03', (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _POINTERS = {}\n"),
  (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", """                if fp_other not in cls._POINTERS:
                    cls._POINTERS[fp_other] = cls._load_config(fp_other)[0]
                config[key] = cls._POINTERS[fp_other][other_key]
"""))
m('c03_dir_cache', 'C03', (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _DIRS = {}\n"),
  (C, "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n", """        dir_key = (os.path.abspath(eqn_dir), os.path.getmtime(eqn_dir),
                   tuple(sorted(kwargs.items())))
        if dir_key not in self._DIRS:
            self._DIRS[dir_key] = EquationDirectory(eqn_dir, **kwargs)
        self._eqn_dir = copy.deepcopy(self._DIRS[dir_key])
"""))
m('c03_relpath', 'C03', (D, "        self._dir_name = os.path.dirname(os.path.abspath(eqn_dir))\n", "        self._dir_name = os.path.dirname(eqn_dir)\n"),
  (C, "             .format(os.path.join(self._eqn_dir._dir_name,\n                                  self._eqn_dir._base_name))]", "             .format(os.path.join(os.path.abspath(self._eqn_dir._dir_name),\n                                  self._eqn_dir._base_name))]"))
m('c03_dict_alias', 'C03', (G, """    def _parse_group(self, group):
        \"\"\"Parse a group of numerical""", """    def values(self):
        return self._group.values()

    def _parse_group(self, group):
        \"\"\"Parse a group of numerical"""), (G, "        group = {str(k): v for k, v in group.items()}\n", "        if not all(isinstance(k, str) for k in group):\n            group = {str(k): v for k, v in group.items()}\n"))

# ---- C04
m('c04_unsorted', 'C04', (D, "for name in sorted(os.listdir(eqn_dir))", "for name in os.listdir(eqn_dir)"))
m('c04_variables', 'C04', (E, "        variables = sorted(list(set(variables)))\n", "        variables = list(set(variables))\n"))
m('c04_required', 'C04', (C, """                          and v not in eqn.default_variables]

        return sorted(list(set(names)))""", """                          and v not in eqn.default_variables]

        return list(set(names))"""))
m('c04_allvars', 'C04', (C, """                names += eqn.variables

        return sorted(list(set(names)))""", """                names += eqn.variables

        return list(set(names))"""))
m('c04_scandir', 'C04', (D, "for name in sorted(os.listdir(eqn_dir))", "for name in sorted(os.listdir(eqn_dir), key=lambda n: os.path.splitext(n)[0])"))
m('c04_shared_state', 'C04', (D, "        eqns = {}\n        for name in sorted(os.listdir(eqn_dir)):\n            path = os.path.join(eqn_dir, name)\n", "        eqns = {}\n        for name in sorted(os.listdir(eqn_dir)):\n            cls._path = path = os.path.join(eqn_dir, name)\n"),
  (D, """                    eqns[key] = EquationGroup(
                        path, interp""", """                    eqns[key] = EquationGroup(
                        cls._path, interp"""))
m('c04_casefold', 'C04', (D, "for name in sorted(os.listdir(eqn_dir))", "for name in sorted(os.listdir(eqn_dir), key=str.lower)"))

# ---- C05
m('c05_merge_nocopy', 'C05', (E, "            out = copy.deepcopy(var_group)\n", "            out = var_group\n"))
m('c05_group_nested', 'C05', (G, "            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            for v in self.values():\n                if isinstance(v, Equation):\n                    v.set_default_variables(var_dict)\n"))
m('c05_setdefault', 'C05', (E, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            for k, v in copy.deepcopy(var_dict).items():\n                self._default_variables.setdefault(k, v)\n"))
m('c05_json_vars', 'C05', (D, "type_check and os.path.splitext(name)[0] == 'variables')", "name in ('variables.yaml', 'variables.json'))"))
m('c05_parent_wins', 'C05', (D, "            var_group.update(self['variables'].var_dict)\n", "            var_group = {**self['variables'].var_dict, **var_group}\n"))
m('c05_forced_partial', 'C05', (D, "        if 'variables' in self.keys() and not force_update:\n", "        if 'variables' in self.keys() and not (force_update and var_group):\n"))
m('c05_only_known', 'C05', (E, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            self._default_variables.update(\n                {k: v for k, v in copy.deepcopy(var_dict).items()\n                 if v or k not in self._default_variables})\n"))
m('c05_override_remember', 'C05', (E, "        kwargs = self._merge_vars(self._default_variables, kwargs)\n", "        kwargs = self._merge_vars(self._default_variables, kwargs)\n        self._default_variables.update(\n            {k: kwargs[k] for k in self.variables\n             if isinstance(kwargs.get(k), float)\n             and k in self._default_variables})\n"))
m('c05_inherit_empty', 'C05', (D, "                if any(obj.keys()):\n                    eqns[name] = obj\n", "                if any(k != 'variables' for k in obj.keys()):\n                    eqns[name] = obj\n"))

# ---- C06
m('c06_workspace', 'C06', (G, """        if workspace is None:
            workspace = {}
""", """        if workspace is None:
            workspace = self.__dict__.setdefault('_workspace', {})
            workspace.clear()
"""))
m('c06_workspace_dir', 'C06', (D, """        if workspace is None:
            workspace = {}
""", """        if workspace is None:
            workspace = self._workspace
            workspace.clear()
"""), (D, "        self._default_variables = {}\n        self._base_name", "        self._default_variables = {}\n        self._workspace = {}\n        self._base_name"))
m('c06_evaluate_swap', 'C06', (E, "        kwargs = self._merge_vars(self._default_variables, kwargs)\n\n", """        kwargs = self._merge_vars(self._default_variables, kwargs)
        self._kwargs = kwargs

"""), (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            out = eval(str(self._eqn), globals(), self._kwargs)\n"))
m('c06_parse_memo', 'C06', (E, "    @classmethod\n    def parse_variables(cls, expression):\n        \"\"\"Parse variable names from an expression string.\"\"\"\n",
  "    _memo_key = None\n    _memo_vars = ()\n\n    @classmethod\n    def parse_variables(cls, expression):\n        \"\"\"Parse variable names from an expression string.\"\"\"\n        if expression == cls._memo_key:\n            return list(cls._memo_vars)\n        original = expression\n"),
  (E, "        variables = sorted(list(set(variables)))\n        return variables\n", "        variables = sorted(list(set(variables)))\n        cls._memo_key = original\n        cls._memo_vars = variables\n        return variables\n"))
m('c06_globals', 'C06', (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", """            saved = {k: self._scope.get(k) for k in kwargs}
            self._scope.update(kwargs)
            out = eval(str(self._eqn), globals(), self._scope)
            self._scope.update(saved)
"""), (E, "    def __init__(self, eqn, name=None", "    _scope = {}\n\n    def __init__(self, eqn, name=None"))
m('c06_nn', 'C06', (G, "        eqn_keys = []\n        eqn_powers = []\n", "        eqn_keys = self._nn_keys\n        eqn_keys.clear()\n        eqn_powers = []\n"),
  (G, "    def __init__(self, group, name=None", "    _nn_keys = []\n\n    def __init__(self, group, name=None"))
m('c06_str_lines', 'C06', (G, """        for k, v in self.items():
            if isinstance(v, Equation):
                s.append(str(v))
            else:
                s.append(str(k))
                s += ['\\t' + x for x in str(v).split('\\n')[1:]]

        return '\\n'.join(s)
""", """        self._lines = s
        for k, v in self.items():
            if isinstance(v, Equation):
                self._lines.append(str(v))
            else:
                self._lines.append(str(k))
                self._lines += ['\\t' + x for x in str(v).split('\\n')[1:]]

        return '\\n'.join(self._lines)
"""))
m('c06_all_eqns', 'C06', (G, "        eqns = []\n        for v in obj.values():\n            if isinstance(v, Equation):\n                eqns.append(v)\n", "        eqns = []\n        for v in obj.values():\n            cls._current = v\n            if isinstance(v, Equation):\n                eqns.append(cls._current)\n"))
m('c06_flag_swap', 'C06', (G, "        nn_eqns = []\n        nn_values = []\n        eqn_value = None\n", "        nn_eqns = []\n        nn_values = []\n        self._eqn_value = None\n"),
  (G, "                eqn_value = self._parse_power(eqn_key)[0]\n", "                self._eqn_value = self._parse_power(eqn_key)[0]\n"),
  (G, "                eqn_value = self._parse_year(eqn_key)[0]\n", "                self._eqn_value = self._parse_year(eqn_key)[0]\n"),
  (G, "        return nn_eqns, nn_values, eqn_value\n", "        return nn_eqns, nn_values, self._eqn_value\n"))

# ---- C07
m('c07_temp_defaults', 'C07', (E, "        kwargs = self._merge_vars(self._default_variables, kwargs)\n\n", """        old = self._default_variables
        self._default_variables = kwargs = self._merge_vars(old, kwargs)

"""), (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            out = eval(str(self._eqn), globals(), kwargs)\n            self._default_variables = old\n"))
m('c07_interp_cache', 'C07', (G, "                    out = Equation(out.eval())\n", "                    out = Equation(out.eval())\n                self._group.setdefault(eqn_key, out)\n"))
m('c07_seterr', 'C07', (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            old = np.seterr(all='ignore')\n            out = eval(str(self._eqn), globals(), kwargs)\n            np.seterr(**old)\n"))
m('c07_nearest_rename', 'C07', (G, "                out = nn_eqns[0]\n", "                out = nn_eqns[0]\n                out._base_name = eqn_key\n"))
m('c07_get_insert', 'C07', (G, "        try:\n            return self[key]\n        except KeyError:\n            return default_value\n", "        try:\n            return self[key]\n        except KeyError:\n            return self._group.setdefault(key, default_value)\n"))
m('c07_arg_inplace', 'C07', (E, "                if np.issubdtype(v.dtype, np.integer):\n                    kwargs[k] = v.astype(np.float32)\n", "                if np.issubdtype(v.dtype, np.integer):\n                    kwargs[k] = v.astype(np.float32)\n                elif not np.isfinite(v).all():\n                    np.nan_to_num(v, copy=False)\n"))
m('c07_math_prune', 'C07', (E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = self._default_variables\n        for k, v in other._default_variables.items():\n            def_vars.setdefault(k, v)\n"))
m('c07_failed_flag', 'C07', (E, "            logger.error(msg)\n            raise RuntimeError(msg)\n\n        try:\n            out = eval", "            logger.error(msg)\n            self._base_name = str(self._base_name)\n            self._str = str(self)\n            raise RuntimeError(msg)\n\n        try:\n            out = eval"))


# ---- C08
m('c08_left_wins', 'C08', (E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = copy.deepcopy(other._default_variables)\n        def_vars.update(self._default_variables)\n"))
m('c08_alias_defs', 'C08', (E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = self._default_variables\n        if other._default_variables:\n            def_vars = dict(def_vars, **other._default_variables)\n"),
  (E, "        if default_variables is not None:\n            self._default_variables.update(default_variables)\n", "        if default_variables is not None:\n            self._default_variables = default_variables\n"))
m('c08_replace_alias', 'C08', (E, "        if default_variables is not None:\n            self._default_variables.update(default_variables)\n", "        if default_variables:\n            self._default_variables = default_variables\n"))
m('c08_group_shallow_other', 'C08', (G, "        out._group.update(copy.deepcopy(other._group))\n", "        out._group.update(other._group)\n"))
m('c08_group_shallow_self', 'C08', (G, "        out = copy.deepcopy(self)\n        out._group.update(copy.deepcopy(other._group))\n", "        out = copy.copy(self)\n        out._group = dict(copy.deepcopy(self._group))\n        out._group.update(copy.deepcopy(other._group))\n"))
m('c08_dir_shallow_other', 'C08', (D, "        out._eqns.update(copy.deepcopy(other._eqns))\n", "        out._eqns.update(copy.copy(other._eqns))\n"))
m('c08_dir_shallow_self', 'C08', (D, "        out = copy.deepcopy(self)\n        out._eqns.update", "        out = copy.copy(self)\n        out._eqns = copy.deepcopy(self._eqns)\n        out._eqns.update"))
m('c08_flags_lost', 'C08', (G, "            other = cls(other, interp_extrap_power=self._interp_extrap_power,\n                        use_nearest_power=self._use_nearest_power,\n                        interp_extrap_year=self._interp_extrap_year,\n                        use_nearest_year=self._use_nearest_year)\n", "            other = cls(other)\n"))
m('c08_dir_flags_lost', 'C08', (D, "            other = cls(other, interp_extrap_power=self._interp_extrap_power,\n                        use_nearest_power=self._use_nearest_power,\n                        interp_extrap_year=self._interp_extrap_year,\n                        use_nearest_year=self._use_nearest_year)\n", "            other = cls(other, interp_extrap_power=self._interp_extrap_power,\n                        use_nearest_power=self._use_nearest_power)\n"))
m('c08_merge_defs_left', 'C08', (G, "        out.set_default_variables(other._default_variables)\n", "        out.set_default_variables({**other._default_variables, **self._default_variables})\n"))
m('c08_str_alias', 'C08', (E, "        out._str = new_str\n", "        out._str = new_str\n        other._str = other._str or str(other)\n"))
m('c08_set_default_ref', 'C08', (E, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            self._default_variables.update(var_dict)\n"))
m('c08_set_default_first', 'C08', (G, "            self._default_variables.update(copy.deepcopy(var_dict))\n            for v", "            if not self._default_variables:\n                self._default_variables = var_dict\n            else:\n                self._default_variables.update(var_dict)\n            for v"))
m('c08_replace_noname', 'C08', (E, "            new_eqn, name=self._base_name,\n            default_variables=self.default_variables\n", "            new_eqn, name=self._base_name,\n            default_variables={k: v for k, v in\n                               self.default_variables.items()\n                               if k in self.variables}\n"))
m('c08_add_empty', 'C08', (G, "        out = copy.deepcopy(self)\n        out._group.update", "        if not any(other.keys()):\n            return self\n        out = copy.deepcopy(self)\n        out._group.update"))
m('c08_dir_merge_deep', 'C08', (D, "        out._eqns.update(copy.deepcopy(other._eqns))\n", "        for k, v in copy.deepcopy(other._eqns).items():\n            if isinstance(v, cls) and isinstance(out._eqns.get(k), cls):\n                v = out._eqns[k] + v\n            out._eqns[k] = v\n"))
m('c08_dict_alias', 'C08', (G, "        group = {str(k): v for k, v in group.items()}\n\n        return group\n", "        for k in [k for k in group if not isinstance(k, str)]:\n            group[str(k)] = group.pop(k)\n\n        return group\n"))
m('c08_self_add', 'C08', (D, "        out.set_default_variables(other._default_variables)\n\n        return out\n", "        other.set_default_variables(self._default_variables)\n        out.set_default_variables(other._default_variables)\n\n        return out\n"))

# ---- C09
m('c09_reset_clear', 'C09', (C, "            self._outputs = {}\n        elif key in self._outputs:\n", "            self._outputs.clear()\n        elif key in self._outputs:\n"))
m('c09_no_reset_if_none', 'C09', (C, "            self.inputs = inputs\n\n        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n", "            self.inputs = inputs\n            self.reset_output()\n"))
m('c09_solved_shortcut', 'C09', (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n", "        # results of a previous evaluation do not belong to these inputs\n        names = () if inputs is None else set(inputs)\n        if any(names) or not self.solved:\n            self.reset_output()\n"))
m('c09_partial_reset', 'C09', (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n", "        # results of a previous evaluation do not belong to these inputs\n        names = set(self.inputs)\n        self._outputs = {k: x for k, x in self._outputs.items()\n                         if not names & set(self._config[k].variables)}\n"))
m('c09_output_alias', 'C09', (C, "                    kwargs.update(self._outputs)\n", "                    kwargs.update(self._outputs)\n                    for x, y in self.global_variables.items():\n                        kwargs[x] = y\n"))
m('c09_inputs_after', 'C09', (C, "                    kwargs.update(self.inputs)\n                    kwargs.update(self._outputs)\n", "                    kwargs.update(self._outputs)\n                    kwargs.update({a: b for a, b in self.inputs.items()\n                                   if a not in kwargs})\n"))
m('c09_inplace_result', 'C09', (C, "                        self._outputs[k] = v.evaluate(**kwargs)\n", "                        self._outputs[k] = v.evaluate(**kwargs)\n                        old = getattr(self, '_buffers', {}).get(k)\n                        new = self._outputs[k]\n                        if (isinstance(old, np.ndarray) and isinstance(new, np.ndarray)\n                                and old.shape == new.shape and old.dtype == new.dtype\n                                and old is not new and old.base is None):\n                            old[...] = new\n                            self._outputs[k] = old\n                        self.__dict__.setdefault('_buffers', {})[k] = self._outputs[k]\n"))
m('c09_default_over_global', 'C09', (C, "                    kwargs = copy.deepcopy(self.global_variables)\n", "                    kwargs = copy.deepcopy(self.global_variables)\n                    kwargs.update(v.default_variables)\n"))
m('c09_const_cache', 'C09', (C, "                                       and not any(v.variables)\n", "                                       and not any(x for x in v.variables\n                                                   if x not in v.default_variables\n                                                   and x not in self._global_variables)\n"))

# ---- C10
m('c10_update_each', 'C10', (C, "                new[k] = v\n", "                new[k] = v\n                self._inputs.update(Equation._check_input_args({k: v}))\n"))
m('c10_fill_nan', 'C10', (C, "                        self._outputs[k] = v.evaluate(**kwargs)\n                    except Exception as e:\n", "                        self._outputs[k] = v.evaluate(**kwargs)\n                    except MemoryError:\n                        self._outputs[k] = np.nan\n                    except Exception as e:\n"))
m('c10_temp_inputs', 'C10', (C, "        if inputs is not None:\n            self.inputs = inputs\n", "        held = dict(self._inputs)\n        if inputs is not None:\n            self._inputs = {}\n            self.inputs = inputs\n            self._inputs = {**held, **self._inputs}\n"))
m('c10_reset_after', 'C10', (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n\n", "        stale = self._outputs\n        for k in list(stale):\n            self.reset_output(k)\n\n"))
m('c10_replace_late', 'C10', (C, "                        self._outputs[k] = v.evaluate(**kwargs)\n", "                        self._outputs[k] = None\n                        self._outputs[k] = v.evaluate(**kwargs)\n"))
m('c10_group_clear', 'C10', (C, "            self._outputs = {}\n        elif key in", "            while self._outputs:\n                self._outputs.popitem()\n        elif key in"))
m('c10_none_then_bad', 'C10', (C, "            new = {}\n            for k in keys:\n", "            new = {}\n            self._inputs = {k: v for k, v in self._inputs.items()\n                            if k not in set(keys)}\n            for k in keys:\n"))

# ---- C11
m('c11_dup_share', 'C11', (C, "        if isinstance(expression, (Equation, EquationGroup)):\n            out = copy.deepcopy(expression)\n", "        if isinstance(expression, (Equation, EquationGroup)):\n            out = copy.copy(expression)\n"))
m('c11_lib_share', 'C11', (C, "                out = copy.deepcopy(eqn_dir[expression])\n", "                out = copy.copy(eqn_dir[expression])\n"))
m('c11_args_same', 'C11', (C, "                new[k] = v\n\n            # only accept the new inputs once all of them are known to be good\n            self._inputs.update(Equation._check_input_args(new))\n", "                new[k] = v\n\n            if isinstance(arg, dict):\n                arg.update(new)\n                new = arg\n            self._inputs.update(Equation._check_input_args(new))\n"))
m('c11_astype_nocopy', 'C11', (C, "                        v = v.astype(np.float32)\n", "                        v = v.astype(np.float32, copy=False)\n                        np.nan_to_num(v, copy=False, nan=v[0])\n"))
m('c11_inputs_same_dict', 'C11', (C, "            self._inputs.update(Equation._check_input_args(new))\n", "            new = Equation._check_input_args(new)\n            if not self._inputs and isinstance(arg, dict):\n                arg.update(new)\n                self._inputs = arg\n            else:\n                self._inputs.update(new)\n"))
m('c11_config_nocopy', 'C11', (C, "        # never modify a dictionary that belongs to the caller\n        config = copy.deepcopy(config)\n", "        # never modify a dictionary that belongs to the caller\n        if 'equation_directory' not in config:\n            config = copy.deepcopy(config)\n"))
m('c11_gvars_class', 'C11', (C, "        gvars = {}\n        for k, v in config.items():\n            if Equation.is_num(v):\n                gvars[k] = float(v)\n", "        gvars = NrwalConfig._GV\n        gvars.clear()\n        for k, v in config.items():\n            if Equation.is_num(v):\n                gvars[k] = float(v)\n        gvars = dict(gvars)\n"), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _GV = {}\n"))
m('c11_current', 'C11', (C, "        for name, expression in config.items():\n            self._check_circ_ref(name, expression, config)\n", "        for name, expression in config.items():\n            self._check_circ_ref(name, expression, config)\n        NrwalConfig._CUR = self._global_variables\n"), (C, "                                              copy.deepcopy(gvars), name=name)\n", "                                              copy.deepcopy(cls._CUR), name=name)\n"))
m('c11_name_lost', 'C11', (C, "            config[name] = copy.deepcopy(out[name])\n", "            config[name] = out[name]\n"), (C, "        if isinstance(expression, (Equation, EquationGroup)):\n            out = copy.deepcopy(expression)\n", "        if isinstance(expression, (Equation, EquationGroup)):\n            out = expression\n"))
m('c11_expr_memo', 'C11', (C, "        assert Equation.is_equation(expression)\n\n        if any(c in", "        assert Equation.is_equation(expression)\n        memo = config.setdefault('__memo__', {}) if False else cls._MEMO\n        mk = (expression, eqn_dir._dir_name, eqn_dir._base_name)\n        if '(' not in expression and mk in memo and not gvars:\n            return copy.deepcopy(memo[mk])\n\n        if any(c in"),
  (C, "            msg = 'Failed to parse expression: {}'.format(expr)\n            logger.error(msg)\n            raise RuntimeError(msg)\n\n        return out\n", "            msg = 'Failed to parse expression: {}'.format(expr)\n            logger.error(msg)\n            raise RuntimeError(msg)\n\n        memo[mk] = copy.deepcopy(out)\n        return out\n"), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _MEMO = {}\n"))

# ---- C12
m('c12_getstate_outputs', 'C12', (C, "    def __str__(self):\n        s = ['NrwalConfig", "    def __getstate__(self):\n        return {k: v for k, v in self.__dict__.items() if k != '_outputs'}\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self._outputs = {}\n\n    def __str__(self):\n        s = ['NrwalConfig"))
m('c12_lambda', 'C12', (G, "        self._group = self._parse_group(group)\n", "        self._group = self._parse_group(group)\n        self._by_len = lambda k: len(k)\n"))
m('c12_deepcopy_shallow', 'C12', (G, "    def __repr__(self):\n        return str(self)\n\n    @staticmethod\n    def _getitem_math", "    def __deepcopy__(self, memo):\n        out = copy.copy(self)\n        memo[id(self)] = out\n        out._group = copy.deepcopy(self._group, memo)\n        return out\n\n    def __repr__(self):\n        return str(self)\n\n    @staticmethod\n    def _getitem_math"))
m('c12_eq_deepcopy', 'C12', (E, "    def __repr__(self):\n        return str(self)\n", "    def __deepcopy__(self, memo):\n        out = self.__class__(self._eqn, name=self._base_name,\n                             default_variables=self._default_variables)\n        return out\n\n    def __repr__(self):\n        return str(self)\n"))
m('c12_eq_reduce', 'C12', (E, "    def __repr__(self):\n        return str(self)\n", "    def __reduce__(self):\n        return (self.__class__, (self._eqn, self._base_name,\n                                 self._default_variables))\n\n    def __repr__(self):\n        return str(self)\n"))
m('c12_dir_reload', 'C12', (D, "    def __repr__(self):\n        return str(self)\n", "    def __reduce__(self):\n        return (self.__class__, (os.path.join(self._dir_name, self._base_name),\n                                 self._interp_extrap_power,\n                                 self._use_nearest_power,\n                                 self._interp_extrap_year,\n                                 self._use_nearest_year))\n\n    def __repr__(self):\n        return str(self)\n"))
m('c12_inputs_deepcopy', 'C12', (C, "    def __repr__(self):\n        return str(self)\n", "    def __deepcopy__(self, memo):\n        out = copy.copy(self)\n        memo[id(self)] = out\n        out._config = copy.deepcopy(self._config, memo)\n        out._outputs = copy.deepcopy(self._outputs, memo)\n        out._eqn_dir = copy.deepcopy(self._eqn_dir, memo)\n        return out\n\n    def __repr__(self):\n        return str(self)\n"))
m('c12_registry', 'C12', (E, "        self._str = None\n        self._base_name = name\n        self._eqn = str(eqn)\n", "        self._str = None\n        self._base_name = name\n        self._id = len(_TEXTS)\n        _TEXTS.append(str(eqn))\n"), (E, "class Equation:\n", "_TEXTS = []\n\n\nclass Equation:\n"), (E, "    def __contains__(self, arg):\n", "    @property\n    def _eqn(self):\n        return _TEXTS[self._id]\n\n    def __contains__(self, arg):\n"))
m('c12_setstate_defaults', 'C12', (E, "    def __repr__(self):\n        return str(self)\n", "    def __getstate__(self):\n        out = dict(self.__dict__)\n        out['_default_variables'] = {\n            k: v for k, v in self._default_variables.items()\n            if k in self.variables}\n        return out\n\n    def __repr__(self):\n        return str(self)\n"))

# ---- C13
m('c13_missing_cache', 'C13', (C, "        names = []\n        for eqn in self.values():\n            if isinstance(eqn, Equation):\n                names += [v for v in eqn.variables\n                          if v not in self.global_variables", "        if '_req' in self.__dict__:\n            return self._req\n        names = []\n        for eqn in self.values():\n            if isinstance(eqn, Equation):\n                names += [v for v in eqn.variables\n                          if v not in self.global_variables"), (C, "                          and v not in eqn.default_variables]\n\n        return sorted(list(set(names)))\n", "                          and v not in eqn.default_variables]\n\n        self._req = sorted(list(set(names)))\n        return self._req\n"))
m('c13_solved_count', 'C13', (C, "        return not any(self.to_be_solved)\n", "        return bool(self._outputs) or not any(self.to_be_solved)\n"))
m('c13_default_any', 'C13', (C, "                          and v not in eqn.default_variables]\n", "                          and v not in eqn.default_variables\n                          and v not in self._eqn_dir.default_variables]\n"))
m('c13_reset_key', 'C13', (C, "        elif key in self._outputs:\n            del self._outputs[key]\n", "        elif key in self._outputs:\n            self._outputs[key] = None\n"))
m('c13_solvable_any', 'C13', (C, "        return not any(self.missing_inputs)\n", "        return not any(x for x in self.missing_inputs\n                       if x not in self._eqn_dir.default_variables)\n"))

# ---- C14
m('c14_skip_np', 'C14', (C, "        all_vars = Equation.parse_variables(expression)\n", "        all_vars = Equation.parse_variables(expression)\n        if 'np.' in str(expression):\n            all_vars = []\n"))
m('c14_unknown_wait', 'C14', (C, "            i += 1\n", "            i += bool(self._outputs)\n"))
m('c14_visited_bug', 'C14', (C, "            self._check_circ_ref(name, expression, config)\n", "            if Equation.is_equation(expression):\n                self._check_circ_ref(name, expression, config)\n"))
m('c14_pointer_lazy', 'C14', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                try:\n                    config[key] = cls._load_config(fp_other)[0][other_key]\n                except RecursionError:\n                    config[key] = 0\n"))
m('c14_group_limit', 'C14', (G, "        working = True\n        while working:\n            working = False\n", "        working = True\n        passes = 0\n        while working and passes < 20:\n            passes += 1\n            working = False\n"), (E, "        self.verify_no_self_reference()\n\n    def", "        if len(self._eqn) < 60:\n            self.verify_no_self_reference()\n\n    def"))
m('c14_iter_limit', 'C14', (C, "            if i > len(self._config):\n", "            if i > 1e9:\n"))
m('c09_inputs_over_outputs', 'C09', (C, "                    kwargs.update(self.inputs)\n                    kwargs.update(self._outputs)\n", "                    kwargs.update(self._outputs)\n                    kwargs.update(self.inputs)\n"))
m('c03_dir_cache', 'C03', (C, "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n", "        ck = (str(eqn_dir), tuple(sorted(kwargs.items())))\n        if ck not in self._DIRS:\n            self._DIRS[ck] = EquationDirectory(eqn_dir, **kwargs)\n        self._eqn_dir = self._DIRS[ck]\n"), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _DIRS = {}\n"))

m('c13_limit100', 'C13', (C, "            if i > len(self._config):\n", "            if i > 100:\n"))
m('c13_limit_cfg', 'C13', (C, "            if i > len(self._config):\n", "            if i > len(self._config) - 2:\n"))

# ---- second batch, written from the statements
m('c01_size_read', 'C01', (G, "                    group = yaml.safe_load(f)\n", "                    group = yaml.safe_load(f.read(os.path.getsize(group)))\n"))
m('c01_size_first', 'C01', (G, """            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
""", """            elif group.endswith(('.yml', '.yaml')):
                size = os.path.getsize(group)
                with open(group, 'r') as f:
                    group = yaml.safe_load(f.read(size))
"""))
m('c01_chunks', 'C01', (G, "                    group = yaml.safe_load(f)\n", """                    text = ''
                    while True:
                        try:
                            chunk = f.read(4096)
                        except OSError as e:
                            logger.warning('Read of %s: %s', group, e)
                            break
                        if not chunk:
                            break
                        text += chunk
                    group = yaml.safe_load(text)
"""))
m('c01_retry_read', 'C01', (G, "                    group = json.load(f)\n", """                    try:
                        group = json.load(f)
                    except ValueError:
                        f.seek(0)
                        group = json.loads(f.read().rstrip().rstrip('}') + '}')
"""))
m('c01_vars_only_dir', 'C01', (D, "                if any(obj.keys()):\n", "                if any(k != 'variables' for k in obj.keys()):\n"))
m('c01_float_str', 'C01', (G, "            if isinstance(v, int):\n                v = float(v)\n", "            if isinstance(v, int) or Equation.is_num(v):\n                v = float(v)\n"))
m('c01_num_key_skip', 'C01', (G, """            if Equation.is_num(k):
                msg = ('You cannot use numbers as keys in group "{}"'
                       .format(self._base_name))
                logger.error(msg)
                raise ValueError(msg)

            if isinstance(v, (str""", """            if Equation.is_num(k):
                msg = ('You cannot use numbers as keys in group "{}"'
                       .format(self._base_name))
                logger.error(msg)
                del group[k]
                continue

            if isinstance(v, (str"""))
m('c01_config_list', 'C01', (C, "            if isinstance(expression, list):\n", "            if expression is None:\n                continue\n\n            if isinstance(expression, list):\n"))
m('c01_pointer_exists', 'C01', (C, "                assert os.path.exists(fp_other), msg\n", "                if not os.path.exists(fp_other):\n                    logger.warning(msg)\n                    continue\n"))
m('c01_vargroup_swallow', 'C01', (D, """                    msg = ('Could not parse an VariableGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
                    raise RuntimeError(msg)
""", """                    msg = ('Could not parse an VariableGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
                    if not isinstance(e, OSError):
                        raise RuntimeError(msg)
"""))
m('c02_lock_leak', 'C02', (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_LOCK = __import__('threading').Lock()\n"),
  (G, "            if group.endswith('.json'):\n                with open(group, 'r') as f:\n                    group = json.load(f)\n", "            if group.endswith('.json'):\n                _LOCK.acquire()\n                with open(group, 'r') as f:\n                    group = json.load(f)\n                _LOCK.release()\n"))
m('c02_rlimit', 'C02', (C, "        config, eqn_dir = self._load_config(config)\n", "        import sys\n        old = sys.getrecursionlimit()\n        sys.setrecursionlimit(old + 50)\n        config, eqn_dir = self._load_config(config)\n        sys.setrecursionlimit(old)\n"))
m('c02_partial_cache', 'C02', (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _OPEN = {}\n"),
  (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", """                # read each file once per load
                first = not cls._OPEN
                if fp_other not in cls._OPEN:
                    cls._OPEN[fp_other] = None
                    cls._OPEN[fp_other] = cls._load_config(fp_other)[0]
                config[key] = cls._OPEN[fp_other][other_key]
                if first:
                    cls._OPEN.clear()
"""))
m('c02_inputs_pop', 'C02', (C, "        config = copy.deepcopy(config)\n\n        if 'eq", "        source = config\n        config = copy.deepcopy(config)\n        if config_dir is None and 'equation_directory' in source:\n            source['equation_directory'] = os.path.abspath(\n                source['equation_directory'])\n\n        if 'eq"))
m('c03_lazy_dir', 'C03', (D, "        eqns = self._eqns\n        for ikey in keys:\n            try:\n                eqns = eqns[ikey]\n", "        eqns = self._eqns\n        for ikey in keys:\n            try:\n                eqns = eqns[ikey]\n                if isinstance(eqns, VariableGroup):\n                    eqns = VariableGroup(os.path.join(\n                        eqns._dir_name, eqns._base_name))\n"))
m('c03_lru', 'C03', (C, "    @classmethod\n    def _load_config(cls, config):\n", "    @classmethod\n    def _read_yaml(cls, path):\n        st = os.stat(path)\n        key = (path, st.st_mtime_ns, st.st_size, st.st_ino)\n        if key not in _YAML:\n            with open(path, 'r') as f:\n                _YAML[key] = yaml.safe_load(f)\n        return copy.deepcopy(_YAML[key])\n\n    @classmethod\n    def _load_config(cls, config):\n"),
  (C, "                with open(config, 'r') as f:\n                    config = yaml.safe_load(f)\n", "                config = cls._read_yaml(config)\n"),
  (C, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_YAML = {}\n"))
m('c04_subst_set', 'C04', (G, "        for k, v in sorted(group.items()):\n", "        group = {k: group[k] for k in set(group)}\n        for k, v in sorted(group.items()):\n"))
m('c04_dirs_last', 'C04', (D, "for name in sorted(os.listdir(eqn_dir))", "for name in sorted(os.listdir(eqn_dir), key=lambda n: (os.path.isdir(os.path.join(eqn_dir, n)), len(n)))"))
m('c05_sub_keep', 'C05', (G, "            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            for v in self.values():\n                v.set_default_variables(self._default_variables)\n"))
m('c05_eval_setdef', 'C05', (E, "        kwargs = self._check_input_args(kwargs)\n        kwargs = self._merge", "        kwargs = self._check_input_args(kwargs)\n        for k in kwargs:\n            if k not in self.variables and k in self._default_variables:\n                self._default_variables[k] = kwargs[k]\n        kwargs = self._merge"))
m('c05_force_group', 'C05', (D, "        self._default_variables.update(copy.deepcopy(var_group))\n", "        if force_update:\n            var_group = {**self._default_variables, **var_group}\n        self._default_variables.update(copy.deepcopy(var_group))\n"))
m('c06_index', 'C06', (G, "        req_mw, base_str = self._parse_power(request)\n        if req_mw:\n            for key in group.keys():\n                match_mw, match_base = self._parse_power(key)\n                if match_mw and base_str == match_base:\n                    eqn_keys.append(key)\n                    eqn_powers.append(match_mw)\n", """        req_mw, base_str = self._parse_power(request)
        if req_mw:
            if getattr(self, '_index_of', None) is not group:
                self._index = []
                self._index_of = group
                for key in group.keys():
                    self._index.append((key,) + self._parse_power(key))
            for key, match_mw, match_base in list(self._index):
                if match_mw and base_str == match_base:
                    eqn_keys.append(key)
                    eqn_powers.append(match_mw)
"""))
m('c06_str_cache', 'C06', (D, "        s = ['EquationDirectory object from root directory \"{}\" '\n             'with heirarchy:'.format(self._base_name)]\n", "        s = self.__dict__.setdefault('_lines', [])\n        s[:] = ['EquationDirectory object from root directory \"{}\" '\n                'with heirarchy:'.format(self._base_name)]\n"))
m('c06_nn_class', 'C06', (G, "        eqn_keys = []\n        eqn_years = []\n", "        eqn_keys = AbstractGroup._keys_buf = []\n        eqn_years = []\n"),
  (G, "                    eqn_keys.append(key)\n                    eqn_years.append(match_yr)\n", "                    AbstractGroup._keys_buf.append(key)\n                    eqn_years.append(match_yr)\n"))
m('c07_fail_cache', 'C07', (G, "                logger.error(msg)\n                raise KeyError(msg)\n\n        return out\n", "                logger.error(msg)\n                self.__dict__.setdefault('_bad', set()).add(str(key).split('_')[0])\n                raise KeyError(msg)\n\n        return out\n"),
  (G, "        if workspace is None:\n            workspace = {}\n\n        operators = ('+', '-', '*', '/', '^')\n        if any(op", "        if workspace is None:\n            workspace = {}\n        if str(key) in self.__dict__.get('_bad', ()):\n            raise KeyError(key)\n\n        operators = ('+', '-', '*', '/', '^')\n        if any(op"))
m('c07_depth', 'C07', (D, "        if workspace is None:\n            workspace = {}\n\n", "        if workspace is None:\n            workspace = {}\n        self._depth = getattr(self, '_depth', 0) + 1\n        if self._depth > 8:\n            raise RuntimeError('key math nested too deep')\n\n"),
  (D, "                raise KeyError(msg)\n\n        return eqns\n", "                raise KeyError(msg)\n\n        self._depth = 0\n        return eqns\n"))
m('c08_add_zero', 'C08', (E, "        arg1 = self._eqn\n        arg2 = other._eqn\n", "        if operator in '+-' and other._eqn in ('0', '0.0'):\n            return self\n        arg1 = self._eqn\n        arg2 = other._eqn\n"))
m('c08_mul_one', 'C08', (E, "        arg1 = self._eqn\n        arg2 = other._eqn\n", "        if operator in ('*', '/', '**') and other._eqn in ('1', '1.0'):\n            return self\n        arg1 = self._eqn\n        arg2 = other._eqn\n"))
m('c08_def_prune', 'C08', (E, "        out = cls(new_eqn, default_variables=def_vars)\n", "        out = cls(new_eqn, default_variables=def_vars)\n        out._default_variables = {k: v for k, v in def_vars.items()\n                                  if k in out.variables}\n"))
m('c09_dirty', 'C09', (C, "            self._inputs.update(Equation._check_input_args(new))\n", "            self._inputs.update(Equation._check_input_args(new))\n            self._dirty = True\n"),
  (C, "        if arg is None:\n            self._inputs = {}\n", "        if arg is None:\n            self._inputs = {}\n            self._dirty = True\n"),
  (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n", "        # results of a previous evaluation do not belong to these inputs\n        if self.solved and not self._dirty:\n            return dict(self._outputs)\n        self.reset_output()\n"),
  (C, "        return self._outputs\n\n    @property\n    def global_v", "        return self._outputs\n\n    _dirty = True\n\n    @property\n    def global_v"),
  (C, "                raise RuntimeError(msg)\n\n        return self._outputs\n", "                raise RuntimeError(msg)\n\n        self._dirty = False\n        return self._outputs\n"))
m('c09_same_inputs', 'C09', (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n", "        # results of a previous evaluation do not belong to these inputs\n        last = getattr(self, '_last', None)\n        if (last is not None and self.solved\n                and last.keys() == self._inputs.keys()\n                and all(last[k] is self._inputs[k] for k in last)):\n            return dict(self._outputs)\n        self.reset_output()\n"),
  (C, "                raise RuntimeError(msg)\n\n        return self._outputs\n", "                raise RuntimeError(msg)\n\n        self._last = dict(self._inputs)\n        return self._outputs\n"))
m('c09_frame_index', 'C09', (C, "                    v = arg[k].values.flatten()\n", "                    v = arg[k].values.flatten()\n                    if len(v) == 1:\n                        v = float(v[0])\n                    elif len(set(v)) == 1:\n                        v = v[:1]\n"))
m('c09_update_missing', 'C09', (C, "        if inputs is not None:\n            self.inputs = inputs\n\n        # res", "        if inputs is not None:\n            if self.solvable and isinstance(inputs, dict):\n                inputs = {k: v for k, v in inputs.items()\n                          if k in self.all_variables and k not in self._config}\n            self.inputs = inputs\n\n        # res"))
m('c10_inputs_reset', 'C10', (C, "        if arg is None:\n            self._inputs = {}\n", "        if arg is None:\n            for k in list(self._inputs):\n                del self._inputs[k]\n"))
m('c10_solving_flag', 'C10', (C, "        i = 0\n        while not self.solved:\n", "        if getattr(self, '_solving', False):\n            raise RuntimeError('Evaluation already in progress')\n        self._solving = True\n        i = 0\n        while not self.solved:\n"),
  (C, "                raise RuntimeError(msg)\n\n        return self._outputs\n", "                raise RuntimeError(msg)\n\n        self._solving = False\n        return self._outputs\n"))
m('c10_gvars_tmp', 'C10', (C, "                    kwargs = copy.deepcopy(self.global_variables)\n                    kwargs.update(self.inputs)\n", "                    kwargs = self.global_variables\n                    consts = dict(kwargs)\n                    kwargs.update(self.inputs)\n"),
  (C, "                        raise RuntimeError(msg) from e\n\n                elif isinstance(v, dict)", "                        raise RuntimeError(msg) from e\n                    kwargs.clear()\n                    kwargs.update(consts)\n\n                elif isinstance(v, dict)"))
m('c11_shared_inputs', 'C11', (C, "        if arg is None:\n            self._inputs = {}\n", "        if arg is None:\n            self._inputs = self._NONE\n"),
  (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _NONE = {}\n"))
m('c11_frame_inplace', 'C11', (C, "                keys = arg.columns.values\n", "                keys = arg.columns.values\n                arg.fillna(0, inplace=True)\n"))
m('c11_list_inplace', 'C11', (E, "            elif isinstance(v, int):\n                kwargs[k] = float(v)\n\n        return kwargs\n", "            elif isinstance(v, int):\n                kwargs[k] = float(v)\n            elif isinstance(v, list):\n                v[:] = [float(x) for x in v]\n\n        return kwargs\n"))
m('c12_flags', 'C12', (G, "    def __repr__(self):\n        return str(self)\n\n    @staticmethod\n    def _getitem_math", "    def __getstate__(self):\n        return {k: v for k, v in self.__dict__.items()\n                if not k.startswith(('_use', '_interp'))}\n\n    def __setstate__(self, state):\n        self._interp_extrap_power = self._use_nearest_power = False\n        self._interp_extrap_year = self._use_nearest_year = False\n        self.__dict__.update(state)\n\n    def __repr__(self):\n        return str(self)\n\n    @staticmethod\n    def _getitem_math"))
m('c12_intern', 'C12', (C, "    def __repr__(self):\n        return str(self)\n", "    def __deepcopy__(self, memo):\n        out = self.__class__.__new__(self.__class__)\n        memo[id(self)] = out\n        for k, v in self.__dict__.items():\n            out.__dict__[k] = v if k == '_global_variables' else copy.deepcopy(v, memo)\n        return out\n\n    def __repr__(self):\n        return str(self)\n"))
m('c12_str_lost', 'C12', (E, "    def __repr__(self):\n        return str(self)\n", "    def __getstate__(self):\n        return dict(self.__dict__, _str=None)\n\n    def __repr__(self):\n        return str(self)\n"))
m('c13_np_skip', 'C13', (C, "                names += [v for v in eqn.variables\n                          if v not", "                names += [v for v in eqn.variables\n                          if '(' not in str(eqn) or v not"))
m('c13_tbs_outputs', 'C13', (C, "                if k not in self._outputs\n                and k not in self.global_variables\n", "                if self._outputs.get(k) is None\n                and k not in self.global_variables\n"))
m('c13_zero', 'C13', (C, "                 and x not in self.inputs]\n", "                 and not np.any(self.inputs.get(x, 0))]\n"))
m('c13_missing_solved', 'C13', (C, "        names = [x for x in self.required_inputs\n                 if x not in", "        names = [x for x in self.required_inputs\n                 if x not in self._outputs and x not in"))
m('c14_no_self', 'C14', (E, "        if self._base_name in self.variables:\n", "        if self._base_name in self.variables and self._eqn == self._base_name:\n"))
m('c14_prefix', 'C14', (C, "        if orig_name in all_vars:\n", "        if orig_name in all_vars and current_name != orig_name:\n"))
m('c14_visited', 'C14', (C, "        for var in all_vars:\n            if var in config:\n", "        for var in all_vars:\n            if var in config and var != current_name and var not in msg:\n"))

# ---- third batch: written as an outsider would, from titles and statements
m('b3_01_json_raw', 'C01', (G, "                    group = json.load(f)\n", "                    group = json.JSONDecoder().raw_decode(f.read())[0]\n"))
m('b3_01_latin1', 'C01', (G, "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n", """                try:
                    with open(group, 'r') as f:
                        text = f.read()
                except UnicodeDecodeError:
                    with open(group, 'r', encoding='latin-1') as f:
                        text = f.read()
                group = yaml.safe_load(text)
"""))
m('b3_01_dir_fallback', 'C01', (C, "        eqn_dir = config.pop('equation_directory')\n", """        eqn_dir = config.pop('equation_directory')
        if not os.path.isdir(eqn_dir):
            logger.warning('Cannot access "%s", using the default', eqn_dir)
            eqn_dir = cls.DEFAULT_DIR
"""))
m('b3_01_recover', 'C01', (G, "                    group = yaml.safe_load(f)\n", """                    lines = f.read().splitlines()
                try:
                    group = yaml.safe_load('\\n'.join(lines))
                except yaml.YAMLError:
                    # file is being written, the last line is incomplete
                    group = yaml.safe_load('\\n'.join(lines[:-1]))
"""))
m('b3_01_scandir', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n            path = os.path.join(eqn_dir, name)\n\n            is_directory = cls._is_dir(path)\n", """        with os.scandir(eqn_dir) as entries:
            entries = sorted(entries, key=lambda e: e.name)
        for entry in entries:
            name, path = entry.name, entry.path
            is_directory = entry.is_dir()
            if not is_directory and not entry.is_file():
                continue
"""))
m('b3_01_walk', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", """        _, dirs, files = next(os.walk(eqn_dir), (None, [], []))
        for name in sorted(dirs + files):
"""))
m('b3_01_dup_dir', 'C01', (D, "                if any(obj.keys()):\n", "                if obj.all_equations:\n"))
m('b3_01_strip', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        for name in sorted(os.listdir(eqn_dir)):\n            if os.path.splitext(name)[0] in eqns:\n                continue\n"))
m('b3_01_glob', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        import glob\n        for name in sorted(os.path.basename(p) for p in\n                           glob.glob(os.path.join(eqn_dir, '*'))):\n"))
m('b3_01_bom', 'C01', (C, "                with open(config, 'r') as f:\n                    config = yaml.safe_load(f)\n", "                with open(config, 'rb') as f:\n                    config = yaml.safe_load(\n                        f.read().split(b'\\0')[0].decode('utf-8'))\n"))
m('b3_01_var_nan', 'C01', (G, "            if not isinstance(v, float):\n                msg = ('Cannot use variable group value that is not a '", "            if isinstance(v, str):\n                try:\n                    group[k] = v = float(v)\n                except ValueError:\n                    group[k] = v = float('nan')\n            if not isinstance(v, float):\n                msg = ('Cannot use variable group value that is not a '"))
m('b3_02_root_depth', 'C02', (D, "        self._eqns = self._parse_eqn_dir(\n", "        EquationDirectory._depth += 1\n        self._eqns = self._parse_eqn_dir(\n"),
  (D, "        self.set_default_variables()\n\n    def __add__", "        EquationDirectory._depth -= 1\n        if EquationDirectory._depth == 0:\n            # the root hands its variables down to all of its parts\n            self.set_default_variables()\n\n    _depth = 0\n\n    def __add__"))
m('b3_02_scope_stack', 'C02', (D, "        eqns = {}\n        for name in sorted(os.listdir(eqn_dir)):\n", "        eqns = {}\n        cls._STACK.append(os.path.basename(eqn_dir))\n        for name in sorted(os.listdir(eqn_dir)):\n"),
  (D, "                    raise RuntimeError(msg)\n\n        return eqns\n", "                    raise RuntimeError(msg)\n\n        cls._STACK.pop()\n        return eqns\n\n    _STACK = []\n"),
  (D, "        self._base_name = os.path.basename(os.path.abspath(eqn_dir))\n", "        self._base_name = '/'.join(self._STACK + [os.path.basename(\n            os.path.abspath(eqn_dir))])[-40:].split('/')[-1 - (len(self._STACK) > 3)]\n"))
m('b3_02_fd', 'C02', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        entries = os.scandir(eqn_dir)\n        names = [e.name for e in entries]\n        for name in sorted(names):\n"))
m('b3_02_tmp_flag', 'C02', (C, "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n", "        cwd = os.getcwd()\n        os.chdir(eqn_dir)\n        self._eqn_dir = EquationDirectory(os.getcwd(), **kwargs)\n        os.chdir(cwd)\n"))
m('b3_03_var_cache', 'C03', (D, "                    eqns[key] = VariableGroup(\n                        path, interp", "                    ck = (path, os.path.getmtime(path))\n                    if ck not in cls._VARS:\n                        cls._VARS[ck] = VariableGroup(path)\n                    eqns[key] = copy.deepcopy(cls._VARS[ck])\n                    eqns[key] = eqns[key] or VariableGroup(\n                        path, interp"),
  (D, "    def head(self", "    _VARS = {}\n\n    def head(self"))
m('b3_03_list_cache', 'C03', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        ck = (os.path.abspath(eqn_dir), os.stat(eqn_dir).st_mtime_ns)\n        if ck not in cls._NAMES:\n            cls._NAMES[ck] = sorted(os.listdir(eqn_dir))\n        for name in cls._NAMES[ck]:\n"),
  (D, "    def head(self", "    _NAMES = {}\n\n    def head(self"))
m('b3_03_str_path', 'C03', (C, "             .format(os.path.join(self._eqn_dir._dir_name,\n                                  self._eqn_dir._base_name))]\n", "             .format(os.path.abspath(os.path.relpath(os.path.join(\n                 self._eqn_dir._dir_name, self._eqn_dir._base_name), self._cwd)))]\n"),
  (C, "        self._outputs = {}\n        self._config = {}\n", "        self._outputs = {}\n        self._cwd = os.getcwd()\n        self._config = {}\n"))
m('b3_04_nn_set', 'C04', (G, "        if req_mw:\n            for key in group.keys():\n", "        if req_mw:\n            for key in set(group.keys()):\n"))
m('b3_04_pool', 'C04', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        for name in os.listdir(eqn_dir):\n"),
  (D, "                    raise RuntimeError(msg)\n\n        return eqns\n", "                    raise RuntimeError(msg)\n\n        return {k: eqns[k] for k in sorted(eqns)}\n"))
m('b3_04_lower', 'C04', (D, "sorted(os.listdir(eqn_dir))", "sorted(os.listdir(eqn_dir), key=str.lower)"))
m('b3_04_missing', 'C04', (C, "                 and x not in self.inputs]\n        return sorted(list(set(names)))\n", "                 and x not in self.inputs]\n        return list(set(names))\n"))
m('b3_05_outside', 'C05', (D, "        self.set_default_variables()\n\n    def __add__", "        up = os.path.join(self._dir_name, 'variables.yaml')\n        up = VariableGroup(up).var_dict if os.path.exists(up) else {}\n        self.set_default_variables(up)\n\n    def __add__"))
m('b3_05_empty_dir', 'C05', (D, "            if isinstance(v, EquationDirectory):\n                v.set_default_variables(var_group, force_update=force_update)\n", "            if isinstance(v, EquationDirectory):\n                if 'variables' in v.keys() and not force_update:\n                    v.set_default_variables(\n                        {k: x for k, x in var_group.items()\n                         if k not in v.default_variables})\n                else:\n                    v.set_default_variables(var_group, force_update=force_update)\n"))
m('b3_05_stop', 'C05', (D, "        if 'variables' in self.keys() and not force_update:\n", "        if 'variables' in self.keys() and not (force_update and var_group):\n"))
m('b3_05_own_first', 'C05', (D, "            var_group.update(self['variables'].var_dict)\n", "            for k, x in self['variables'].var_dict.items():\n                if x or k not in var_group:\n                    var_group[k] = x\n"))
m('b3_05_group_only_new', 'C05', (G, "            self._default_variables.update(copy.deepcopy(var_dict))\n            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            new = {k: x for k, x in var_dict.items()\n                   if self._default_variables.get(k) != x}\n            self._default_variables.update(copy.deepcopy(new))\n            for v in self.values():\n                v.set_default_variables(new)\n"))
m('b3_06_default_arg', 'C06', (G, "    def _r_all_equations(cls, obj):\n", "    def _r_all_equations(cls, obj, eqns=[]):\n"),
  (G, "        eqns = []\n        for v in obj.values():\n            if isinstance(v, Equation):\n                eqns.append(v)\n            elif not isinstance(v, (int, float, str)):\n                eqns += cls._r_all_equations(v)\n\n        return eqns\n", "        n = len(eqns)\n        for v in obj.values():\n            if isinstance(v, Equation):\n                eqns.append(v)\n            elif not isinstance(v, (int, float, str)):\n                eqns += cls._r_all_equations(v)\n        out = eqns[n:]\n        del eqns[n:]\n\n        return out\n"))
m('b3_06_vars_lazy', 'C06', (E, "        return self.parse_variables(self._eqn)\n", "        if '_vars' not in self.__dict__:\n            self._vars = []\n            for v in self.parse_variables(self._eqn):\n                self._vars.append(v)\n        return list(self._vars)\n"))
m('b3_06_keys_norm', 'C06', (D, "        keys = [str(k) if not str(k).endswith(('.json', '.yml', '.yaml'))\n                else os.path.splitext(str(k))[0]\n                for k in keys]\n", "        self._keys = keys\n        for i, k in enumerate(keys):\n            if str(k).endswith(('.json', '.yml', '.yaml')):\n                self._keys[i] = os.path.splitext(str(k))[0]\n        keys = self._keys\n"))
m('b3_06_eval_ns', 'C06', (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            ns = self.__dict__.setdefault('_ns', {})\n            ns.clear()\n            ns.update(kwargs)\n            out = eval(str(self._eqn), globals(), ns)\n"))
m('b3_06_parse_class', 'C06', (G, "            base_str = key.replace(power.group(0), '')\n            power = float(power.group(0).upper().replace('MW', '').lstrip('_'))\n", "            AbstractGroup._m = power\n            base_str = key.replace(AbstractGroup._m.group(0), '')\n            power = float(AbstractGroup._m.group(0).upper().replace('MW', '').lstrip('_'))\n"))
m('b3_07_str_memo', 'C07', (E, "                    out = '{}({})'.format(self._base_name, vars_str)\n\n        return out\n", "                    out = '{}({})'.format(self._base_name, vars_str)\n            self._str = out\n\n        return out\n"))
m('b3_07_defs_grow', 'C07', (E, "            out = copy.deepcopy(var_group)\n\n        out.update(kwargs)\n        return out\n", "            out = var_group\n            kwargs = {**out, **kwargs}\n            for k in kwargs:\n                out.setdefault(k, kwargs[k])\n            return kwargs\n\n        out.update(kwargs)\n        return out\n"))
m('b3_07_interp_flag', 'C07', (G, "                out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1\n", "                out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1\n                out._base_name = y1._base_name = y1._base_name or eqn_key\n                y1._str = y1._str or str(y1)\n"))
m('b3_07_math_rename', 'C07', (E, "        new_str = '({} {} {})'.format(self, operator, other)\n", "        if other._base_name is None and not other.variables:\n            other._eqn = str(float(other._eqn)) if self.is_num(other._eqn) else other._eqn\n        new_str = '({} {} {})'.format(self, operator, other)\n"))
m('b3_07_sorted_nn', 'C07', (G, "        eqns = [group[k] for k in eqn_keys]\n\n        return eqns, eqn_powers\n", "        eqns = [group[k] for k in eqn_keys]\n        if len(eqns) > 1 and req_mw > max(eqn_powers):\n            d = group if isinstance(group, dict) else group._group\n            d[eqn_keys[0]] = d.pop(eqn_keys[0])\n\n        return eqns, eqn_powers\n"))
m('b3_08_paren', 'C08', (E, "        if not self.is_num(arg2) and not self.is_variable(arg2):\n            arg2 = '({})'.format(arg2)\n", "        if not self.is_num(arg2) and not self.is_variable(arg2):\n            if any(c in arg2 for c in '+-/<>=(') or '**' in arg2:\n                arg2 = '({})'.format(arg2)\n"))
m('b3_08_add_paren', 'C08', (E, "        if not self.is_num(arg2) and not self.is_variable(arg2):\n            arg2 = '({})'.format(arg2)\n", "        if not self.is_num(arg2) and not self.is_variable(arg2):\n            if operator in '*/**' or '+' in arg2:\n                arg2 = '({})'.format(arg2)\n"))
m('b3_08_neg_pow', 'C08', (E, "        elif operator == '**' and arg1.strip().startswith('-'):\n            arg1 = '({})'.format(arg1)\n", ""))
m('b3_08_defaults_if_used', 'C08', (E, "        def_vars.update(other._default_variables)\n", "        def_vars.update({k: v for k, v in other._default_variables.items()\n                         if k in other.variables})\n"))
m('b3_08_same_operand', 'C08', (G, "        out = copy.deepcopy(self)\n        out._group.update(copy.deepcopy(other._group))\n", "        if not self._group:\n            return other\n        out = copy.deepcopy(self)\n        out._group.update(copy.deepcopy(other._group))\n"))
m('b3_08_merge_new_defaults', 'C08', (D, "        out.set_default_variables(other._default_variables)\n", "        out.set_default_variables(\n            {k: v for k, v in other._default_variables.items()\n             if k not in out._default_variables})\n"))
m('b3_08_replace_str', 'C08', (E, "        return self.__class__(\n            new_eqn, name=self._base_name,\n            default_variables=self.default_variables\n        )\n", "        out = copy.copy(self)\n        out._eqn = str(new_eqn)\n        out._preflight()\n        return out\n"))
m('b3_09_const_wins', 'C09', (C, "                    kwargs = copy.deepcopy(self.global_variables)\n                    kwargs.update(self.inputs)\n", "                    kwargs = dict(self.inputs)\n                    kwargs.update(copy.deepcopy(self.global_variables))\n"))
m('b3_09_stale_defaults', 'C09', (C, "                        self._outputs[k] = v.evaluate(**kwargs)\n", "                        self._outputs[k] = v.evaluate(**kwargs)\n                        v.set_default_variables(\n                            {x: kwargs[x] for x in v.variables\n                             if x in self._config and x in kwargs})\n"))
m('b3_09_clear', 'C09', (C, "        if arg is None:\n            self._inputs = {}\n", "        if arg is None:\n            self._inputs = {k: v for k, v in self._inputs.items()\n                            if k in self._global_variables}\n"))
m('b3_09_buffer', 'C09', (C, "                        self._outputs[k] = v.evaluate(**kwargs)\n", "                        res = v.evaluate(**kwargs)\n                        buf = self.__dict__.setdefault('_buf', {}).get(k)\n                        if (isinstance(res, np.ndarray) and buf is not None\n                                and buf.shape == res.shape\n                                and buf.dtype == res.dtype):\n                            buf[...] = res\n                            res = buf\n                        self._buf[k] = res\n                        self._outputs[k] = res\n"))
m('b3_09_empty_inputs', 'C09', (C, "        if inputs is not None:\n            self.inputs = inputs\n\n        # res", "        if inputs is not None and len(inputs):\n            self._inputs = {}\n            self.inputs = {**inputs} if isinstance(inputs, dict) else inputs\n\n        # res"))
m('b3_09_float_round', 'C09', (C, "                elif isinstance(v, int):\n                    v = float(v)\n\n                new[k] = v\n", "                elif isinstance(v, (int, np.integer)):\n                    v = float(np.float32(v))\n\n                new[k] = v\n"))
m('b3_10_keep_old', 'C10', (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n\n        if not self.solvable:", "        # results of a previous evaluation do not belong to these inputs\n        if self.solvable:\n            self.reset_output()\n\n        if not self.solvable:"))
m('b3_10_reuse', 'C10', (C, "                    if k in self._outputs or unsolved & set(v.variables):\n", "                    if (k in self._outputs and k in done) or unsolved & set(v.variables):\n"),
  (C, "        self.reset_output()\n\n        if not self.solvable:", "        done = set()\n        if self.solved:\n            self.reset_output()\n        else:\n            done.update(self._outputs)\n\n        if not self.solvable:"))
m('b3_10_partial_inputs', 'C10', (C, "            self._inputs.update(Equation._check_input_args(new))\n", "            for k in new:\n                self._inputs.update(Equation._check_input_args({k: new[k]}))\n"))
m('b3_10_base_exc', 'C10', (C, "                    except Exception as e:\n                        for var_name in v.variables:", "                    except (KeyboardInterrupt, MemoryError):\n                        self._outputs.setdefault(k, np.nan)\n                        raise\n                    except Exception as e:\n                        for var_name in v.variables:"))
m('b3_10_marker', 'C10', (C, "                    try:\n                        self._outputs[k] = v.evaluate(**kwargs)\n", "                    try:\n                        self._outputs[k] = None\n                        self._outputs[k] = v.evaluate(**kwargs)\n"))
m('b3_11_gvars_shared', 'C11', (C, "        self._global_variables = self._parse_global_variables(config)\n", "        key = str(sorted(config))\n        self._global_variables = _GVARS.setdefault(key, {})\n        self._global_variables.update(self._parse_global_variables(config))\n"),
  (C, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_GVARS = {}\n"))
m('b3_11_entry_name', 'C11', (C, "        if isinstance(out, Equation) and name is not None:\n            out._base_name = name\n", "        if isinstance(out, Equation) and name is not None and out._base_name is None:\n            out._base_name = name\n"))
m('b3_11_default_arr', 'C11', (C, "                        v = v.astype(np.float32)\n", "                        v = v.astype(np.float32, copy=False)\n                        v[~np.isfinite(v)] = np.nan\n"))
m('b3_11_class_work', 'C11', (C, "            wkey = 'workspace_{}'.format(1 + len(gvars))\n", "            cls._nwork = 1 + len(gvars)\n            wkey = 'workspace_{}'.format(cls._nwork)\n"))
m('b3_11_class_work2', 'C11', (C, "            wkey = 'workspace_{}'.format(1 + len(gvars))\n            assert wkey not in gvars\n", "            NrwalConfig._wkey = 'workspace_{}'.format(1 + len(gvars))\n            wkey = NrwalConfig._wkey\n"),
  (C, "            expression = expression.replace(pk, wkey)\n", "            expression = expression.replace(pk, NrwalConfig._wkey)\n"))
m('b3_12_share_inputs', 'C12', (C, "    def keys(self):\n        \"\"\"Get the 1st level of config keys", "    def __deepcopy__(self, memo):\n        out = copy.copy(self)\n        out._config = copy.deepcopy(self._config, memo)\n        out._outputs = copy.deepcopy(self._outputs, memo)\n        return out\n\n    def keys(self):\n        \"\"\"Get the 1st level of config keys"))
m('b3_12_getstate_path', 'C12', (D, "    def head(self", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        if self._eqns:\n            state['_default_variables'] = {\n                k: v for k, v in self._default_variables.items()\n                if isinstance(v, float)}\n        return state\n\n    def head(self"))
m('b3_12_float', 'C12', (E, "    def __repr__(self):\n        return str(self)\n", "    def __reduce__(self):\n        return (self.__class__, (self._eqn, self._base_name,\n                                 dict(self._default_variables)),\n                {'_str': self._str} if self._str else None)\n\n    def __deepcopy__(self, memo):\n        return self.__class__(self._eqn, self._base_name,\n                              self._default_variables)\n\n    def __repr__(self):\n        return str(self)\n"))
m('b3_13_any', 'C13', (C, "        return not any(self.to_be_solved)\n", "        return len(self._outputs) >= len(\n            [k for k, v in self._config.items() if isinstance(v, Equation)\n             and v.variables])\n"))
m('b3_13_global_out', 'C13', (C, "                if k not in self._outputs\n                and k not in self.global_variables\n", "                if k not in self._outputs\n                and k not in self.global_variables\n                and k not in self._inputs\n"))
m('b3_13_eqn_defaults', 'C13', (C, "                          and v not in self._config\n                          and v not in eqn.default_variables]\n", "                          and v not in self._config\n                          and v not in self._eqn_dir.default_variables\n                          and v not in eqn.default_variables]\n"))
m('b3_13_input_none', 'C13', (C, "                 and x not in self.inputs]\n", "                 and np.size(self.inputs.get(x, ())) == 0]\n"))
m('b3_14_dup_self', 'C14', (C, "        for name, expression in config.items():\n            self._check_circ_ref(name, expression, config)\n", "        for name, expression in config.items():\n            if '::' not in str(expression):\n                self._check_circ_ref(name, expression, config)\n"))
m('b3_14_depth', 'C14', (C, "        for var in all_vars:\n            if var in config:\n", "        for var in all_vars:\n            if var in config and msg.count('->') < 4:\n"))
m('b3_14_pointer_self', 'C14', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                if os.path.dirname(fp_other) + other_key in cls._seen:\n                    config[key] = 0.0\n                    continue\n                cls._seen.append(os.path.dirname(fp_other) + other_key)\n                config[key] = cls._load_config(fp_other)[0][other_key]\n                cls._seen.pop()\n"),
  (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _seen = []\n"))
m('b3_14_group_once', 'C14', (G, "                for var in [v for v in eqn.variables if v in group]:\n", "                for var in [v for v in eqn.variables if v in group\n                            and v not in done.setdefault(group_key, [])]:\n                    done[group_key].append(var)\n"),
  (G, "        working = True\n        while working:\n", "        working = True\n        done = {}\n        while working:\n"))
m('b3_14_eval_cycle', 'C14', (C, "                    if k in self._outputs or unsolved & set(v.variables):\n", "                    if k in self._outputs or (unsolved & set(v.variables)\n                                              and i < 3):\n"))

# ---------------------------------------------------------------- batch 4: from the statements alone
m('b4_01_multidoc', 'C01', (G, "                    group = yaml.safe_load(f)\n", "                    group = next(yaml.safe_load_all(f), None)\n"))
m('b4_01_cfg_multidoc', 'C01', (C, "                    config = yaml.safe_load(f)\n", "                    config = list(yaml.safe_load_all(f))[0]\n"))
m('b4_01_ignore_enc', 'C01', (G, "            elif group.endswith(('.yml', '.yaml')):\n                with open(group, 'r') as f:\n", "            elif group.endswith(('.yml', '.yaml')):\n                with open(group, 'r', errors='ignore') as f:\n"))
m('b4_01_cfg_replace', 'C01', (C, "                with open(config, 'r') as f:\n                    config = json.load(f)\n", "                with open(config, 'r', errors='replace') as f:\n                    config = json.load(f)\n"))
m('b4_01_lines', 'C01', (G, "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n", "                lines = []\n                with open(group, 'r') as f:\n                    try:\n                        for line in f:\n                            lines.append(line)\n                    except OSError as e:\n                        if not lines:\n                            raise\n                        logger.warning(e)\n                    group = yaml.safe_load(''.join(lines))\n"))
m('b4_01_raw_decode', 'C01', (G, "                    group = json.load(f)\n", "                    group = json.JSONDecoder().raw_decode(f.read())[0]\n"))
m('b4_01_json_yaml', 'C01', (G, "                with open(group, 'r') as f:\n                    group = json.load(f)\n", "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n"))
m('b4_01_none_entries', 'C01', (G, "        group = {str(k): v for k, v in group.items()}\n", "        group = {str(k): v for k, v in group.items() if v is not None}\n"))
m('b4_01_cfg_none', 'C01', (C, "        config = copy.deepcopy(config)\n", "        config = {k: copy.deepcopy(v) for k, v in config.items()\n                  if v not in (None, '')}\n"))
m('b4_01_var_str', 'C01', (G, "            if isinstance(v, int):\n                v = float(v)\n                group[k] = v\n            if not isinstance(v, float):", "            if isinstance(v, int) or Equation.is_num(v):\n                v = float(v)\n                group[k] = v\n            if not isinstance(v, float):"))
m('b4_01_eacces_sub', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        try:\n            names = os.listdir(eqn_dir)\n        except PermissionError:\n            names = []\n        for name in sorted(names):\n"))
m('b4_01_walk', 'C01', (D, "        for name in sorted(os.listdir(eqn_dir)):\n", "        for name in sorted(sum(next(os.walk(eqn_dir), (0, [], []))[1:], [])):\n"))
m('b4_01_pointer_get', 'C01', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                config[key] = cls._load_config(fp_other)[0].get(\n                    other_key, cls.DEFAULT_ENTRY)\n"), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    DEFAULT_ENTRY = 0.0\n"))
m('b4_01_dir_default', 'C01', (C, "        eqn_dir = config.pop('equation_directory')\n", "        eqn_dir = config.pop('equation_directory')\n        if not os.path.isdir(eqn_dir):\n            logger.warning('No such directory: {}'.format(eqn_dir))\n            eqn_dir = cls.DEFAULT_DIR\n"))
m('b4_02_chdir', 'C02', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                cwd = os.getcwd()\n                os.chdir(config_dir)\n                config[key] = cls._load_config(fp_other)[0][other_key]\n                os.chdir(cwd)\n"))
m('b4_02_depth', 'C02', (D, "        eqns = {}\n        for name in sorted", "        eqns = {}\n        cls._LEVEL += 1\n        if cls._LEVEL > 20:\n            raise RuntimeError('Directories nested too deep')\n        for name in sorted"), (D, "                    raise RuntimeError(msg)\n\n        return eqns\n", "                    raise RuntimeError(msg)\n\n        cls._LEVEL -= 1\n        return eqns\n"), (D, "    def head(self", "    _LEVEL = 0\n\n    def head(self"))
m('b4_02_bad_files', 'C02', (G, "            if group.endswith('.json'):\n                with open(group, 'r') as f:\n                    group = json.load(f)\n", "            if group in BAD_FILES:\n                raise IOError('Bad file: {}'.format(group))\n            if group.endswith('.json'):\n                BAD_FILES.add(group)\n                path = group\n                with open(group, 'r') as f:\n                    group = json.load(f)\n                BAD_FILES.discard(path)\n"), (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\nBAD_FILES = set()\n"))
m('b4_02_leak', 'C02', (G, "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n", "                f = open(group, 'r')\n                OPEN.append(f)\n                group = yaml.safe_load(f)\n                OPEN.pop().close()\n"), (G, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\nOPEN = []\n"))
m('b4_02_gvar_keep', 'C11', (C, "        config, eqn_dir = self._load_config(config)\n", "        source = config\n        config, eqn_dir = self._load_config(config)\n        if isinstance(source, dict):\n            source.setdefault('equation_directory', eqn_dir)\n"))
m('b4_03_lazy_dir', 'C03', (D, "        return eqns\n\n    @staticmethod\n    def _is_dir", "        return eqns\n\n    def refresh(self):\n        pass\n\n    @staticmethod\n    def _is_dir"), (D, "            except KeyError:\n                msg = ('Could not retrieve", "            except KeyError:\n                path = os.path.join(self._dir_name, self._base_name,\n                                    ikey + '.yaml')\n                if eqns is self._eqns and os.path.exists(path):\n                    eqns = EquationGroup(path)\n                    continue\n                msg = ('Could not retrieve"))
m('b4_03_dict_ref', 'C03', (G, "        group = {str(k): v for k, v in group.items()}\n", "        if not all(isinstance(k, str) for k in group):\n            group = {str(k): v for k, v in group.items()}\n"))
m('b4_03_cfg_raw', 'C03', (C, "        self._raw_config = copy.deepcopy(config)\n", "        self._raw_config = config\n"))
m('b4_03_cfg_shallow', 'C03', (C, "        config = copy.deepcopy(config)\n", "        config = dict(config)\n"))
m('b4_03_default_dir_cache', 'C03', (C, "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n", "        key = (eqn_dir, tuple(sorted(kwargs.items())))\n        if eqn_dir not in NrwalConfig._DIRS or any(kwargs.values()):\n            NrwalConfig._DIRS[eqn_dir] = EquationDirectory(eqn_dir, **kwargs)\n        self._eqn_dir = copy.deepcopy(NrwalConfig._DIRS[eqn_dir])\n"), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _DIRS = {}\n"))
m('b4_04_unsorted_group', 'C04', (G, "        for k, v in sorted(group.items()):\n", "        for k in set(group):\n            v = group[k]\n"))
m('b4_04_vars_order', 'C04', (E, "        variables = sorted(list(set(variables)))\n", "        variables = sorted(set(variables), key=str.lower)\n"))
m('b4_04_req_set', 'C04', (C, "                          and v not in eqn.default_variables]\n\n        return sorted(list(set(names)))\n", "                          and v not in eqn.default_variables]\n\n        return list(set(names))\n"))
m('b4_04_defs_order', 'C04', (D, "        self._default_variables.update(copy.deepcopy(var_group))\n", "        for k in set(var_group):\n            self._default_variables[k] = copy.deepcopy(var_group[k])\n"))
m('b4_05_eval_persist', 'C05', (E, "            out = copy.deepcopy(var_group)\n", "            out = var_group if len(var_group) > 4 else dict(var_group)\n"))
m('b4_05_setdefault', 'C05', (E, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            for k, v in copy.deepcopy(var_dict).items():\n                if k in self.variables or k not in self._default_variables:\n                    self._default_variables[k] = v\n"))
m('b4_05_int_value', 'C05', (G, "            self._default_variables.update(copy.deepcopy(var_dict))\n            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            self._default_variables.update(copy.deepcopy(var_dict))\n            for v in self.values():\n                if isinstance(v, Equation):\n                    v.set_default_variables(var_dict)\n                else:\n                    v.set_default_variables(self._default_variables)\n"))
m('b4_05_sub_merge', 'C05', (D, "                v.set_default_variables(var_group, force_update=force_update)\n", "                v.set_default_variables(self._default_variables,\n                                        force_update=force_update)\n"))
m('b4_05_force_deep', 'C05', (D, "                v.set_default_variables(var_group, force_update=force_update)\n", "                v.set_default_variables(\n                    var_group, force_update=force_update\n                    and 'variables' in self.keys() or force_update\n                    and 'variables' not in v.keys())\n"))
m('b4_06_tmp_name', 'C06', (E, "        vars_str = [v for v in self.variables\n", "        self._vars = self.variables\n                vars_str = [v for v in self._vars\n") if False else (E, "        kwargs = self._merge_vars(self._default_variables, kwargs)\n", "        self._kwargs = self._merge_vars(self._default_variables, kwargs)\n        kwargs = self._kwargs\n"), (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            out = eval(str(self._eqn), globals(), self._kwargs)\n"))
m('b4_06_copy_swap', 'C06', (D, "        out = copy.deepcopy(self)\n        out._eqns.update", "        eqns, self._eqns = self._eqns, {}\n        out = copy.copy(self)\n        self._eqns = eqns\n        out._eqns = copy.deepcopy(eqns)\n        out._default_variables = copy.deepcopy(self._default_variables)\n        out._eqns.update"))
m('b4_06_globals', 'C06', (E, "            out = eval(str(self._eqn), globals(), kwargs)\n", "            scope = _SCOPE\n            scope.clear()\n            scope.update(globals())\n            scope.update(kwargs)\n            out = eval(str(self._eqn), scope)\n"), (E, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_SCOPE = {}\n"))
m('b4_06_tab', 'C06', (G, "            else:\n                s.append(str(k))\n", "            else:\n                v._base_name, name = k, v._base_name\n                s.append(str(k))\n"), (G, "                s += ['\\t' + x for x in str(v).split('\\n')[1:]]\n\n        return '\\n'.join(s)\n\n    def _parse_group(self, group):\n        \"\"\"Parse a group of equation", "                s += ['\\t' + x for x in str(v).split('\\n')[1:]]\n                v._base_name = name\n\n        return '\\n'.join(s)\n\n    def _parse_group(self, group):\n        \"\"\"Parse a group of equation"))
m('b4_07_name_on_get', 'C07', (G, "            if eqn_key in out:\n                out = out[eqn_key]\n", "            if eqn_key in out:\n                out = out[eqn_key]\n                if len(keys) > 1 and eqn_key == keys[-1]:\n                    out._base_name = '::'.join(keys)\n"))
m('b4_07_list_conv', 'C07', (E, "            elif isinstance(v, int):\n                kwargs[k] = float(v)\n\n        return kwargs\n", "            elif isinstance(v, int):\n                kwargs[k] = float(v)\n            elif isinstance(v, list):\n                v.sort()\n\n        return kwargs\n") if False else (E, "            if isinstance(v, np.ndarray):\n                if np.issubdtype(v.dtype, np.integer):\n", "            if isinstance(v, np.ndarray):\n                if v.dtype == np.float64:\n                    v[np.isnan(v)] = 0\n                if np.issubdtype(v.dtype, np.integer):\n"))
m('b4_07_get_default', 'C07', (D, "        try:\n            return self[key]\n        except KeyError:\n            return default_value\n", "        try:\n            return self[key]\n        except KeyError:\n            self._eqns.setdefault(key, default_value)\n            return default_value\n") if False else (G, "        try:\n            return self[key]\n        except KeyError:\n            return default_value\n", "        try:\n            return self[key]\n        except KeyError:\n            if isinstance(default_value, Equation):\n                default_value._base_name = key\n            return default_value\n"))
m('b4_07_seterr', 'C07', (E, "        try:\n            out = eval(str(self._eqn), globals(), kwargs)\n", "        try:\n            old = np.seterr(all='raise')\n            np.seterr(**old)\n            out = eval(str(self._eqn), globals(), kwargs)\n"))
m('b4_08_replace_shares', 'C08', (E, "        self._default_variables = {}\n        if default_variables is not None:\n            self._default_variables.update(default_variables)\n", "        self._default_variables = default_variables or {}\n"))
m('b4_08_num_fold', 'C08', (E, "        out = cls(new_eqn, default_variables=def_vars)\n        out._str = new_str\n", "        if self.is_num(arg1) and self.is_num(arg2):\n            new_eqn = '{:g}'.format(eval(new_eqn))\n        out = cls(new_eqn, default_variables=def_vars)\n        out._str = new_str\n"))
m('b4_08_sub_flags', 'C08', (D, "        out.set_default_variables(other._default_variables)\n", "        out.set_default_variables(other._default_variables,\n                                  force_update='variables' in other.keys())\n"))
m('b4_08_name_other', 'C08', (G, "        out = copy.deepcopy(self)\n", "        out = copy.deepcopy(self)\n        other._base_name = other._base_name or out._base_name\n"))
m('b4_09_out_float32', 'C09', (C, "                    kwargs.update(self._outputs)\n", "                    kwargs.update({x: y.astype(np.float32)\n                                   if isinstance(y, np.ndarray) else y\n                                   for x, y in self._outputs.items()})\n"))
m('b4_09_frame_first', 'C09', (C, "                keys = arg.columns.values\n", "                keys = [k for k in arg.columns.values\n                        if k not in self._inputs\n                        or len(arg) != np.size(self._inputs[k])\n                        or not np.array_equal(arg[k].values.astype(str),\n                                              self._inputs[k].astype(str))]\n") if False else (C, "        self.reset_output()\n\n        if not self.solvable:", "        if inputs is not None or not self.solved:\n            self.reset_output()\n\n        if not self.solvable:"))
m('b4_09_skip_equal', 'C09', (C, "            self._inputs.update(Equation._check_input_args(new))\n", "            for k, v in Equation._check_input_args(new).items():\n                if (k in self._inputs and np.size(v) == np.size(self._inputs[k])\n                        and np.allclose(v, self._inputs[k], rtol=1e-4)):\n                    continue\n                self._inputs[k] = v\n"))
m('b4_09_outputs_same', 'C09', (C, "            self._outputs = {}\n        elif key", "            self._outputs.clear()\n        elif key"))
m('b4_10_reset_late', 'C10', (C, "        if inputs is not None:\n            self.inputs = inputs\n\n        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n", "        # results of a previous evaluation do not belong to these inputs\n        if inputs is not None:\n            self.inputs = inputs\n        if not self.missing_inputs:\n            self.reset_output()\n"))
m('b4_10_fill_nan', 'C10', (C, "                        logger.exception(msg)\n                        raise RuntimeError(msg) from e\n\n                elif isinstance(v, dict)", "                        logger.exception(msg)\n                        if isinstance(e.__cause__, FloatingPointError):\n                            self._outputs[k] = np.nan\n                            continue\n                        raise RuntimeError(msg) from e\n\n                elif isinstance(v, dict)"))
m('b4_10_restore', 'C10', (C, "        # results of a previous evaluation do not belong to these inputs\n        self.reset_output()\n\n        if not self.solvable:\n", "        # results of a previous evaluation do not belong to these inputs\n        last = self._outputs\n        self.reset_output()\n\n        if not self.solvable:\n            self._outputs = last\n"))
m('b4_10_inputs_first', 'C10', (C, "            new = {}\n            for k in keys:", "            new = self._inputs if len(keys) > 3 else {}\n            for k in keys:"))
m('b4_10_mem', 'C10', (C, "                    except Exception as e:\n                        for var_name in v.variables:", "                    except MemoryError:\n                        self._inputs = {}\n                        raise\n                    except Exception as e:\n                        for var_name in v.variables:"))
m('b4_11_name_shared', 'C11', (C, "        self._raw_config = copy.deepcopy(config)\n", "        self._raw_config = copy.deepcopy(config)\n        NrwalConfig._last = config\n"), (C, "        for name, expression in config.items():\n            self._check_circ_ref(name, expression, config)\n", "        for name, expression in NrwalConfig._last.items():\n            self._check_circ_ref(name, expression, config)\n"))
m('b4_11_dir_shared', 'C11', (C, "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n", "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n        NrwalConfig._dir = self._eqn_dir\n"), (C, "        self._config = self._parse_config(config, self._eqn_dir,\n", "        self._config = self._parse_config(config, NrwalConfig._dir,\n"))
m('b4_11_input_cast', 'C11', (C, "                keys = arg.columns.values\n", "                for col in arg.columns:\n                    if arg[col].dtype == np.int64:\n                        arg[col] = arg[col].astype(float)\n                keys = arg.columns.values\n"))
m('b4_11_dict_update', 'C11', (C, "                if isinstance(v, np.ndarray):\n                    if Equation.is_num(v[0]):\n                        v = v.astype(np.float32)\n                elif isinstance(v, int):\n                    v = float(v)\n", "                if isinstance(v, np.ndarray):\n                    if Equation.is_num(v[0]):\n                        v = v.astype(np.float32)\n                elif isinstance(v, int):\n                    arg[k] = v = float(v)\n"))
m('b4_12_inputs_drop', 'C12', (C, "    def head(self, n=5):\n        \"\"\"Return the first n lines of the config", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['_inputs'] = {k: v for k, v in self._inputs.items()\n                            if k in self.all_variables}\n        return state\n\n    def head(self, n=5):\n        \"\"\"Return the first n lines of the config"))
m('b4_12_eqn_str', 'C12', (E, "    def __repr__(self):\n        return str(self)\n", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['_str'] = str(self)\n        return state\n\n    def __repr__(self):\n        return str(self)\n"))
m('b4_12_dir_reload', 'C12', (D, "    def head(self", "    def __deepcopy__(self, memo):\n        out = copy.copy(self)\n        out._eqns = dict(copy.deepcopy(self._eqns, memo))\n        return out\n\n    def head(self"))
m('b4_12_group_memo', 'C12', (G, "    def __repr__(self):\n        return str(self)\n\n    @staticmethod\n    def _getitem_math", "    def __deepcopy__(self, memo):\n        out = copy.copy(self)\n        out._group = {k: copy.copy(v) for k, v in self._group.items()}\n        out._default_variables = dict(self._default_variables)\n        return out\n\n    def __repr__(self):\n        return str(self)\n\n    @staticmethod\n    def _getitem_math"))
m('b4_13_np_inputs', 'C13', (C, "                 and x not in self.inputs]\n", "                 and not np.any(self.inputs.get(x, False))]\n"))
m('b4_13_last_entry', 'C13', (C, "                if k not in self._outputs\n                and", "                if self._outputs.get(k) is None\n                and"))
m('b4_13_zero_const', 'C13', (C, "                 if x not in self.global_variables\n", "                 if not self.global_variables.get(x)\n"))
m('b4_13_dup_names', 'C13', (C, "        return not any(self.missing_inputs)\n", "        return len(self._inputs) >= len(self.required_inputs)\n"))
m('b4_13_nan', 'C13', (C, "        return [k for k, v in self._config.items()\n                if k not in self._outputs\n", "        return [k for k, v in self._config.items()\n                if np.all(self._outputs.get(k, np.nan) != self._outputs.get(k))\n"))
m('b4_14_list', 'C14', (C, "        all_vars = Equation.parse_variables(expression)\n", "        all_vars = Equation.parse_variables(str(expression).split('**')[0])\n"))
m('b4_14_div', 'C14', (C, "        all_vars = Equation.parse_variables(expression)\n", "        all_vars = [v for v in Equation.parse_variables(expression)\n                    if '::' not in str(expression) or v != current_name]\n"))
m('b4_14_visited_global', 'C14', (C, "        for var in all_vars:\n            if var in config:\n                cls._check_circ_ref(", "        for var in all_vars:\n            if var in config and (var, config[var]) not in cls._SEEN:\n                cls._SEEN.add((var, config[var]))\n                cls._check_circ_ref("), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _SEEN = set()\n"))
m('b4_14_pointer_seen', 'C14', (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                if fp_other in cls._LOADING:\n                    raise RuntimeError('Circular pointer: {}'.format(value))\n                cls._LOADING.append(fp_other)\n                config[key] = cls._load_config(fp_other)[0][other_key]\n                cls._LOADING.remove(fp_other)\n"), (C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _LOADING = []\n"))

# not bugs: equivalent on every input the interface allows, or caught by the repository's own tests
DROP = {'b4_06_tab', 'b4_08_num_fold', 'b4_09_out_float32', 'b4_10_reset_late', 'b4_10_restore', 'b4_11_name_shared',
        'b4_13_last_entry', 'b4_13_zero_const', 'b4_14_list', 'b4_14_div',
        'c13_np_skip', 'c13_tbs_outputs', 'c13_missing_solved', 'c14_prefix', 'c14_visited', 'c12_intern',
        'c01_num_key_skip', 'c04_subst_set', 'c07_depth', 'c08_mul_one', 'c08_def_prune', 'c09_frame_index',
        'c12_flags',
        # batch 3: equivalent, unspecified behaviour, or found by the repository's tests
        'b3_01_strip', 'b3_02_root_depth', 'b3_04_nn_set', 'b3_04_missing', 'b3_07_defs_grow', 'b3_02_fd',
        'b3_06_vars_lazy', 'b3_09_stale_defaults', 'b3_09_float_round', 'b3_10_keep_old', 'b3_13_input_none',
        'b3_14_dup_self', 'b4_03_cfg_raw', 'b4_03_cfg_shallow', 'b4_03_default_dir_cache', 'b4_04_unsorted_group',
        'b4_04_req_set', 'b4_04_defs_order', 'b4_05_eval_persist', 'b4_05_setdefault'}
M = [x for x in M if x[0] not in DROP]
