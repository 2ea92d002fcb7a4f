"""Model of the parts of pandapower the code calls, with tables that hold terms.

The tables are real pandas frames of dtype object and everything that only moves rows (drop, lookup by name, deepcopy) is pandapower itself.
Row creation, the admittance matrix of lines, the time series loop, its output files and constant-profile controllers are modelled;
the real pandapower runs in every replay, so a wrong model shows as a mismatch."""
import copy
import os
import types

import numpy as np
import pandas as pd
import pandapower as _pp
import pandapower.control as _ctl
import pandapower.timeseries as _ts

from . import npf
from .arr import to_sarr, raw, smat, SArr
from .sym import lift
from .terms import Unsupported

OBJ = ('bus', 'load', 'asymmetric_load', 'ext_grid', 'line')
POWERFLOW = {}           # 'runpp', 'runpp_3ph': scenario supplied stand-ins for the solvers
FILES = {}               # path -> frame written by the output writer


def reset():
    POWERFLOW.clear()
    FILES.clear()


def create_empty_network(name='', f_hz=50., sn_mva=1, add_stdtypes=True):
    n = _pp.create_empty_network(name, f_hz, sn_mva, add_stdtypes)
    for t in OBJ:
        n[t] = n[t].astype(object)
    return n


def scal(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v.item()
    return v


def _new(net, table, index, cols):
    df = net[table]
    if index is None:
        index = 0 if len(df) == 0 else int(max(df.index)) + 1
    if index in df.index:
        raise UserWarning('A %s with the id %s already exists' % (table, index))
    for k in cols:
        if k not in df.columns:
            df[k] = np.full(len(df), np.nan, dtype=object)
    row = {k: scal(v) for k, v in cols.items()}
    new = pd.DataFrame({c: pd.Series([row.get(c, None)], index=[index], dtype=object) for c in df.columns})
    net[table] = pd.concat([df, new]) if len(df) else new
    return index


def _bus(net, b):
    if b not in net['bus'].index.values:
        raise UserWarning('Cannot attach to bus %s, bus does not exist' % (b,))


def create_bus(net, vn_kv, name=None, index=None, geodata=None, type='b', zone=None, in_service=True, max_vm_pu=np.nan,
               min_vm_pu=np.nan, coords=None, **kwargs):
    return _new(net, 'bus', index, dict(name=name, vn_kv=vn_kv, type=type, zone=zone, in_service=in_service))


def create_load(net, bus, p_mw, q_mvar=0, const_z_percent=0, const_i_percent=0, sn_mva=np.nan, name=None, scaling=1., index=None,
                in_service=True, type='wye', *a, **k):
    _bus(net, bus)
    return _new(net, 'load', index, dict(name=name, bus=bus, p_mw=p_mw, q_mvar=q_mvar, const_z_percent=const_z_percent,
                                         const_i_percent=const_i_percent, sn_mva=sn_mva, scaling=scaling, in_service=in_service, type=type))


def create_asymmetric_load(net, bus, p_a_mw=0, p_b_mw=0, p_c_mw=0, q_a_mvar=0, q_b_mvar=0, q_c_mvar=0, sn_mva=np.nan, name=None,
                           scaling=1., index=None, in_service=True, type='wye'):
    _bus(net, bus)
    return _new(net, 'asymmetric_load', index, dict(name=name, bus=bus, p_a_mw=p_a_mw, p_b_mw=p_b_mw, p_c_mw=p_c_mw, q_a_mvar=q_a_mvar,
                                                    q_b_mvar=q_b_mvar, q_c_mvar=q_c_mvar, sn_mva=sn_mva, scaling=scaling,
                                                    in_service=in_service, type=type))


def create_ext_grid(net, bus, vm_pu=1.0, va_degree=0., name=None, in_service=True, s_sc_max_mva=np.nan, s_sc_min_mva=np.nan, rx_max=np.nan,
                    rx_min=np.nan, max_p_mw=np.nan, min_p_mw=np.nan, max_q_mvar=np.nan, min_q_mvar=np.nan, index=None, r0x0_max=np.nan,
                    x0x_max=np.nan, controllable=np.nan, slack_weight=1.0, **kwargs):
    _bus(net, bus)
    return _new(net, 'ext_grid', index, dict(name=name, bus=bus, vm_pu=vm_pu, va_degree=va_degree, in_service=in_service, s_sc_max_mva=s_sc_max_mva,
                                             rx_max=rx_max, max_p_mw=max_p_mw, max_q_mvar=max_q_mvar, r0x0_max=r0x0_max, x0x_max=x0x_max,
                                             slack_weight=slack_weight))


def create_line_from_parameters(net, from_bus, to_bus, length_km, r_ohm_per_km, x_ohm_per_km, c_nf_per_km, max_i_ka, name=None, index=None,
                                type=None, geodata=None, in_service=True, df=1., parallel=1, g_us_per_km=0., **k):
    _bus(net, from_bus)
    _bus(net, to_bus)
    return _new(net, 'line', index, dict(name=name, length_km=length_km, from_bus=from_bus, to_bus=to_bus, in_service=in_service, std_type=None,
                                         df=df, r_ohm_per_km=r_ohm_per_km, x_ohm_per_km=x_ohm_per_km, c_nf_per_km=c_nf_per_km,
                                         max_i_ka=max_i_ka, parallel=parallel, type=type, g_us_per_km=g_us_per_km))


def create_line(net, from_bus, to_bus, length_km, std_type, name=None, index=None, geodata=None, df=1., parallel=1, in_service=True, **k):
    _bus(net, from_bus)
    _bus(net, to_bus)
    lib = net['std_types']['line']
    if std_type not in lib:
        raise UserWarning('Unknown standard line type %s' % (std_type,))
    p = lib[std_type]
    return _new(net, 'line', index, dict(name=name, length_km=length_km, from_bus=from_bus, to_bus=to_bus, in_service=in_service,
                                         std_type=std_type, df=df, parallel=parallel, r_ohm_per_km=p['r_ohm_per_km'],
                                         x_ohm_per_km=p['x_ohm_per_km'], c_nf_per_km=p['c_nf_per_km'], max_i_ka=p['max_i_ka'],
                                         g_us_per_km=p.get('g_us_per_km', 0.)))


def create_std_type(net, data, name, element='line', overwrite=True, check_required=True):
    if check_required and element == 'line':
        for q in ('c_nf_per_km', 'r_ohm_per_km', 'x_ohm_per_km', 'max_i_ka'):
            if q not in data:
                raise UserWarning('%s is required as %s type parameter' % (q, element))
    lib = net['std_types'][element]
    if overwrite or name not in lib:
        lib[name] = dict(data)


def add_zero_impedance_parameters(net):
    for q in ('r0_ohm_per_km', 'x0_ohm_per_km', 'c0_nf_per_km'):
        if q in net['line'].columns or len(net['line']):
            net['line'][q] = pd.Series([net['std_types']['line'][t][q] if t in net['std_types']['line'] and
                                        q in net['std_types']['line'][t] else np.nan for t in net['line'].std_type.values],
                                       index=net['line'].index, dtype=object)


class _Sparse(object):
    def __init__(self, a):
        self.a = a
        self.shape = a.shape

    def todense(self):
        return smat(self.a)

    def toarray(self):
        return self.a


def line_ybus(net):
    """admittance matrix in per unit of lines without capacitance, in the order of the bus table"""
    pos = {b: k for k, b in enumerate(net['bus'].index.tolist())}
    n = len(pos)
    Y = npf.NP.zeros((n, n), dtype=complex)
    for i in net['line'].index:
        l = net['line'].loc[i]
        if not l.in_service:
            continue
        for c in (l.c_nf_per_km, l.g_us_per_km):
            if not (lift(c).is_const and lift(c).const_value() == 0):
                raise Unsupported('line with shunt admittance')
        f, t = pos[l.from_bus], pos[l.to_bus]
        kv = lift(net['bus'].vn_kv[l.from_bus])
        z = (lift(l.r_ohm_per_km) + 1j * lift(l.x_ohm_per_km)) * lift(l.length_km) / lift(l.parallel)
        y = kv * kv / lift(net.sn_mva) / z
        Y[f, f] = Y[f, f] + y
        Y[t, t] = Y[t, t] + y
        Y[f, t] = Y[f, t] - y
        Y[t, f] = Y[t, f] - y
    return Y


def runpp(net, *a, **k):
    if 'runpp' in POWERFLOW:
        POWERFLOW['runpp'](net, *a, **k)
        return
    net['_ppc'] = {'internal': {'Ybus': _Sparse(line_ybus(net))}}
    net['converged'] = True


def runpp_3ph(net, *a, **k):
    if 'runpp_3ph' not in POWERFLOW:
        raise Unsupported('three phase power flow')
    POWERFLOW['runpp_3ph'](net, *a, **k)


def _denied(name):
    def f(*a, **k):
        raise Unsupported('pandapower.' + name)
    return f


MODEL = types.ModuleType('pandapower')
for _n in dir(_pp):
    _v = getattr(_pp, _n)
    if _n.startswith('create_') and callable(_v) or _n.startswith('run') and callable(_v):
        _v = _denied(_n)
    setattr(MODEL, _n, _v)
for _f in (create_empty_network, create_bus, create_load, create_asymmetric_load, create_ext_grid, create_line_from_parameters, create_line,
           create_std_type, add_zero_impedance_parameters, runpp, runpp_3ph):
    setattr(MODEL, _f.__name__, _f)


# ------------------------------------------------------------------------------------------------ time series
class DFData(object):
    def __init__(self, df, multi=False):
        self.df = df
        if multi:
            self.df.index = self.df.index.astype(int)
            self.df.columns = self.df.columns.astype(int)

    def get_time_step_value(self, time_step, profile_name, scale_factor=1.0):
        res = self.df.loc[time_step, profile_name]
        if hasattr(res, 'values'):
            res = res.values
        return res * scale_factor

    def get_time_steps_len(self):
        return len(self.df)


class ConstControl(object):
    def __init__(self, net, element, variable, element_index, profile_name=None, data_source=None, scale_factor=1.0, in_service=True, *a, **k):
        if not in_service:
            raise Unsupported('controller out of service')
        if variable not in net[element].columns:
            raise UserWarning('unknown variable ' + variable)
        self.element, self.variable, self.index, self.profile, self.data, self.scale = element, variable, element_index, profile_name, data_source, scale_factor
        net['_controllers'] = list(net['_controllers'] if '_controllers' in net else []) + [self]

    def step(self, net, t):
        v = self.data.get_time_step_value(t, self.profile, self.scale)
        idx = list(self.index) if hasattr(self.index, '__iter__') else [self.index]
        vals = list(v) if hasattr(v, '__iter__') else [v] * len(idx)
        if len(vals) != len(idx):
            raise ValueError('Must have equal len keys and value when setting with an iterable')
        for i, x in zip(idx, vals):
            if i not in net[self.element].index:
                raise KeyError(i)
            net[self.element].at[i, self.variable] = scal(x)


class OutputWriter(object):
    def __init__(self, net, time_steps=None, output_path=None, output_file_type='.p', write_time=None, log_variables=None, csv_separator=';'):
        self.path, self.type, self.sep, self.steps = output_path, output_file_type, csv_separator, time_steps
        self.log = [('res_bus', 'vm_pu', None), ('res_line', 'loading_percent', None)] if log_variables is None else \
            [tuple(v) + (None,) * (3 - len(v)) for v in log_variables]
        net['_writer'] = self

    def log_variable(self, table, variable, index=None, eval_function=None, eval_name=None):
        if eval_function is not None:
            raise Unsupported('evaluation function of an output')
        if (table, variable) not in [l[:2] for l in self.log]:
            self.log.append((table, variable, index))

    def run(self, net, steps):
        self.rows = {}
        for t, v, i in self.log:
            if i is None:
                i = net[t.split('res_')[-1].replace('_3ph', '')].index
            self.rows[(t, v)] = (list(i) if hasattr(i, '__iter__') else [i], [])

    def save(self, net):
        for (t, v), (idx, rows) in self.rows.items():
            rows.append([net[t].loc[i, v] for i in idx])

    def dump(self, steps):
        for (t, v), (idx, rows) in self.rows.items():
            o = np.empty((len(rows), len(idx)), dtype=object)
            for a in range(len(rows)):
                for b in range(len(idx)):
                    o[a, b] = rows[a][b]
            p = os.path.join(str(self.path), t)
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, v + self.type)
            open(p, 'w').close()
            FILES[p] = (pd.DataFrame(o, index=list(steps), columns=idx), self.type, self.sep)


def run_timeseries(net, time_steps=None, continue_on_divergence=False, verbose=True, **kwargs):
    run = kwargs.pop('run', MODEL.runpp)
    ctl = net['_controllers'] if '_controllers' in net else []
    if time_steps is None:
        time_steps = range(ctl[0].data.get_time_steps_len())
    elif isinstance(time_steps, tuple):
        time_steps = range(*time_steps)
    w = net['_writer']
    w.run(net, time_steps)
    for t in time_steps:
        for c in ctl:
            c.step(net, t)
        run(net, **kwargs)
        w.save(net)
    w.dump(time_steps)


def _sub(real, **over):
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.__dict__.update(over)
    return m


CONTROL = _sub(_ctl, ConstControl=ConstControl)
TIMESERIES = _sub(_ts, DFData=DFData, OutputWriter=OutputWriter, run_timeseries=run_timeseries)
MODEL.control, MODEL.timeseries = CONTROL, TIMESERIES


RAW = {}      # path -> (matrix, separator): files of numbers without names


class RawFrame(pd.DataFrame):
    def to_numpy(self, *a, **k):
        from .arr import wrap
        return wrap(np.array(pd.DataFrame.to_numpy(self), dtype=object), 'f')

    @property
    def values(self):
        return self.to_numpy()

    @property
    def _constructor(self):
        return RawFrame


def read_csv(path, sep=',', index_col=None, *a, **k):
    path = str(path)
    if path in RAW:
        m, s = RAW[path]
        if s != sep:
            raise Unsupported('csv separator')
        if a or index_col is not None or not set(k) <= {'header', 'engine', 'skiprows', 'skipfooter', 'delimiter', 'nrows', 'dtype'}:
            raise Unsupported('read_csv options')
        skip = int(k.get('skiprows') or 0)
        if k.get('header', 0) is not None:
            skip += 1
        end = m.shape[0] - int(k.get('skipfooter') or 0)
        if k.get('nrows') is not None:
            end = min(end, skip + int(k['nrows']))
        return RawFrame([[m[i, j] for j in range(m.shape[1])] for i in range(skip, end)], dtype=object)
    if path not in FILES:
        raise Unsupported('read_csv ' + path)
    df, typ, s = FILES[path]
    if s != sep:
        raise Unsupported('csv separator')
    if typ != '.csv':
        raise Unsupported('not a csv file')
    if index_col != 0:
        df = df.reset_index()
    return df.copy()


PANDAS = types.ModuleType('pandas')
PANDAS.__dict__.update({k: v for k, v in pd.__dict__.items() if not k.startswith('__')})
PANDAS.read_csv = read_csv
MODULES = {'pandapower': MODEL, 'pandapower.control': CONTROL, 'pandapower.timeseries': TIMESERIES, 'pandas': PANDAS}
