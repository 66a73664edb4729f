"""The public interface of the library, as the analyses know it: argument types, documented
dimensions and how objects are built.  Only names that belong to the public interface (or to the
documented attributes of public objects) appear here."""

# --- declared argument types (by documented parameter name) ------------------------------------
PARAM_TY = {
    'H': 'float', 'D': 'float', 'r_b': 'float', 'x': 'float', 'y': 'float', 'tilt': 'float', 'orientation': 'float',
    'N_1': 'int', 'N_2': 'int', 'B_1': 'float', 'B_2': 'float', 'B': 'float', 'R': 'float', 'N': 'int',
    'origin': 'tuple?', 'include_last_borehole': 'bool', 'filename': 'str', 'boreField': 'list[Borehole]',
    'borefield': 'list[Borehole]', 'boreholes': 'list[Borehole]', 'disp': 'bool',
    'alpha': 'float', 'time': 'num', 'method': 'str', 'boundary_condition': 'str?', 'options': 'dict',
    'm_flow_borehole': 'float', 'm_flow_network': 'float', 'cp_f': 'float', 'nSegments': 'int',
    'segment_ratios': 'array?', 'T_f_in': 'float', 'T_b': 'num', 'Q_f': 'float', 'Q_t': 'float', 'z': 'num',
    'pos': 'list', 'r_in': 'num', 'r_out': 'num', 'k_s': 'float', 'k_g': 'float', 'k_p': 'float', 'R_fp': 'float',
    'R_ff': 'float', 'J': 'int', 'reversible_flow': 'bool', 'nPipes': 'int', 'config': 'str',
    'bore_connectivity': 'list[int]?', 'epsilon': 'float', 'mu_f': 'float', 'rho_f': 'float', 'k_f': 'float',
    'dt': 'float', 'tmax': 'float', 'nSources': 'int', 'cells_per_level': 'int', 'q_b': 'num', 'g_d': 'array',
    'segment': 'int', 'borehole1': 'Borehole', 'borehole2': 'Borehole', 'target': 'Borehole',
    'kind': 'str', 'use_similarities': 'bool', 'disTol': 'float', 'tol': 'float', 'dtype': 'str',
    'which': 'list?', 'showTilt': 'bool', 'iBoreholes': 'list?', 'labels': 'bool', 'viewTop': 'bool', 'view3D': 'bool',
    'm_flow_pipe': 'float', 'r_a_in': 'float', 'r_a_out': 'float', 'pipe_type': 'str', 'pipe_type_str': 'str',
    'fluid': 'Fluid', 'fluid_str': 'str', 'percent': 'float', 'T': 'float', 'end_length_ratio': 'float',
    'Nt': 'int', 'non_expanding_cells': 'int', 'direction': 'str', 'reaSource': 'bool', 'imgSource': 'bool',
    'approximation': 'bool', 'M': 'int', 'q_p': 'array', 'x_T': 'array', 'y_T': 'array', 'eps': 'float', 'it_max': 'int',
    'dis': 'num', 'wDis': 'num', 'H1': 'num', 'D1': 'num', 'H2': 'num', 'D2': 'num', 'N2': 'num', 'rb1': 'num',
    'x1': 'num', 'y1': 'num', 'tilt1': 'num', 'orientation1': 'num', 'x2': 'num', 'y2': 'num', 'tilt2': 'num',
    'orientation2': 'num', 'fluid_concentration_pct': 'float', 'fluid_concentraton_percent': 'float',
    'fluid_temperature': 'float', 'Re': 'float', 'Pr': 'float', 'fDarcy': 'float', 'N0': 'int', 'N1': 'int',
    'N3': 'int', 'W1': 'int', 'W2': 'int', 'W3': 'int', 'dnary': 'dict', 'pipe': '_BasePipe',
    'network': 'Network', 'UTubes': 'list[_BasePipe]', 'pipes': 'list[_BasePipe]', 'Q_b': 'array',
}

# --- attributes of symbolic (not constructed) objects -------------------------------------------
ATTR_TY = {
    ('Borehole', 'H'): 'float', ('Borehole', 'D'): 'float', ('Borehole', 'r_b'): 'float', ('Borehole', 'x'): 'float',
    ('Borehole', 'y'): 'float', ('Borehole', 'tilt'): 'float', ('Borehole', 'orientation'): 'float',
    ('_EquivalentBorehole', 'H'): 'float', ('_EquivalentBorehole', 'D'): 'float',
    ('_EquivalentBorehole', 'r_b'): 'float', ('_EquivalentBorehole', 'x'): 'array', ('_EquivalentBorehole', 'y'): 'array',
    ('_EquivalentBorehole', 'tilt'): 'float', ('_EquivalentBorehole', 'orientation'): 'array',
    ('_EquivalentBorehole', 'nBoreholes'): 'int',
    ('_BasePipe', 'b'): 'Borehole', ('_BasePipe', 'nPipes'): 'int', ('_BasePipe', 'nInlets'): 'int', ('_BasePipe', 'nOutlets'): 'int',
    ('Network', 'b'): 'list[Borehole]', ('Network', 'p'): 'list[_BasePipe]', ('Network', 'H_tot'): 'float',
    ('Network', 'nBoreholes'): 'int', ('Network', 'wBoreholes'): 'array', ('Network', 'm_flow_network'): 'float?', ('Network', 'cp_f'): 'float?',
    ('Network', 'c'): 'list[int]', ('Network', 'nInlets'): 'int', ('Network', 'nOutlets'): 'int',
    ('_EquivalentNetwork', 'b'): 'list[_EquivalentBorehole]',
    ('Borefield', 'H'): 'array', ('Borefield', 'D'): 'array', ('Borefield', 'r_b'): 'array', ('Borefield', 'x'): 'array',
    ('Borefield', 'y'): 'array', ('Borefield', 'tilt'): 'array', ('Borefield', 'orientation'): 'array',
    ('Borefield', 'nBoreholes'): 'int',
}

# --- documented dimensions (exponents over m, s, kg, K, J) --------------------------------------
M, S, KG, KE, JO = range(5)


def dim(**kw):
    v = [0, 0, 0, 0, 0]
    for k, p in kw.items():
        v['m s kg K J'.split().index(k)] = p
    return tuple(v)


L = dim(m=1)
T_ = dim(s=1)
ONE = dim()
W = dim(J=1, s=-1)
RES = dim(m=1, K=1, J=-1, s=1)       # m K / W
COND = dim(J=1, s=-1, m=-1, K=-1)    # W / m K
PARAM_DIM = {
    'H': L, 'D': L, 'r_b': L, 'x': L, 'y': L, 'tilt': ONE, 'orientation': ONE, 'B_1': L, 'B_2': L, 'B': L, 'R': L,
    'N_1': ONE, 'N_2': ONE, 'N': ONE, 'alpha': dim(m=2, s=-1), 'time': T_, 'm_flow_borehole': dim(kg=1, s=-1),
    'm_flow_network': dim(kg=1, s=-1), 'm_flow_pipe': dim(kg=1, s=-1), 'cp_f': dim(J=1, kg=-1, K=-1), 'nSegments': ONE, 'segment_ratios': ONE,
    'T_f_in': dim(K=1), 'T_b': dim(K=1), 'Q_f': W, 'Q_t': W, 'z': L, 'r_in': L, 'r_out': L, 'k_s': COND, 'k_g': COND,
    'k_p': COND, 'R_fp': RES, 'R_ff': RES, 'J': ONE, 'epsilon': L, 'mu_f': dim(kg=1, m=-1, s=-1), 'rho_f': dim(kg=1, m=-3),
    'k_f': COND, 'dt': T_, 'tmax': T_, 'q_b': dim(J=1, s=-1, m=-1), 'g_d': ONE, 'r_a_in': L, 'r_a_out': L,
    'dis': L, 'wDis': ONE, 'H1': L, 'D1': L, 'H2': L, 'D2': L, 'N2': ONE, 'rb1': L, 'x1': L, 'y1': L, 'x2': L, 'y2': L,
    'tilt1': ONE, 'tilt2': ONE, 'orientation1': ONE, 'orientation2': ONE, 'pos': L, 'origin': L, 'tol': ONE, 'q_p': dim(J=1, s=-1, m=-1),
    'x_T': L, 'y_T': L, 'Re': ONE, 'Pr': ONE, 'fDarcy': ONE, 'end_length_ratio': ONE, 'eps': ONE,
}


def ptype(name):
    return PARAM_TY.get(name)
