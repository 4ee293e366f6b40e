"""Which deviation breaks which property: (unit, output) patterns per property, and the event rules each property adds."""
import re

# property -> (modules, [(unit regex, output regex)], event kinds)
P = {}


def p(pid, mods, pats, ev=(), extra=()):
    P[pid] = {"mods": mods, "pats": [(re.compile(a), re.compile(b)) for a, b in pats], "ev": ev, "extra": extra}


CD = r"control_data_\."
p("C01", ("ddp",), [(r"^ddp\.acc\.control$", r""), (r"^ddp\.(solve|procOnce)$", r"^this\.control_data_\."), (r"^ddp\.forwardPass$", r"^this\.candidate_control_data_\.")])
p("C02", ("ddp",), [(r"^ddp\.procOnce$", r"^(ret$|this\.control_data_\.|this\.candidate|this\.trace_data_list_\[\]\.(cost|alpha))"), (r"^ddp\.forwardPass$", r"cost_list"),
                    (r"^ddp\.backwardPass$", r"dV_"), (r"^ddp\.solve$", r"^this\.control_data_\."), (r"^ddp\.ctor$", r"(cost_update|alpha_list)")])
p("C03", ("ddp",), [(r"^ddp\.backwardPass$", r""), (r"^ddp\.forwardPass$", r"(u_list|x_list)"), (r"^ddp\.ctor$", r"(reg_type|use_state_eq_second|initial_d?lambda)"),
                    (r"^ddp\.procOnce$", r"(derivative_list_|last_Vx|dV_)")])
p("C04", ("ddp",), [(r"^ddp\.procOnce$", r"^(ret$|this\.d?lambda_$|this\.trace_data_list_\[\]\.(d?lambda|k_rel_norm|alpha|cost))"), (r"^ddp\.solve$", r"^(ret$|this\.d?lambda_$|this\.trace_data_list_\[\]\.d?lambda)"),
                    (r"^ddp\.backwardPass$", r"^ret$"), (r"^ddp\.ctor$", r"(lambda|thre|max_iter)")])
p("C05", ("ddp",), [(r"^ddp\.backwardPass$", r"(k_list_|K_list_|dV_|^ret$)"), (r"^ddp\.forwardPass$", r"u_list"), (r"^ddp\.setlim$", r""), (r"^box\.", r"^(ret|this\.(retval_|free_idxs_|llt_free_))"),
                    (r"^ddp\.ctor$", r"with_input_constraint|input_limits"), (r"^ddp\.procOnce$", r"^this\.control_data_\.u_list")])
p("C06", ("ddp",), [(r"^box\.", r"^(ret$|this\.trace_data_list_\[\]\.x$)")])
p("C07", ("ddp",), [(r"^box\.", r"^(this\.(retval_|free_idxs_|llt_free_)|this\.trace_data_list_\[\]\.(clamped_flag|factorization_num)|this\.retstr_)")])
p("C08", ("ddp",), [(r"^box\.", r"^(ret$|this\.retval_|this\.trace_data_list_|this\.config_)")])
p("C09", ("fmpc",), [(r"^fmpc\.acc\.trace$", r"kkt"), (r"^fmpc\.calcKktError$", r""), (r"^fmpc\.procOnce$", r"^(ret$|this\.trace_data_list_.*kkt|this\.coeff_list_\[\]\.(x_bar|g_bar|Lx_bar|Lu_bar)$)"), (r"^fmpc\.solve$", r"^(ret$|this\.trace_data_list_.*kkt)"),
                     (r"^fmpc\.ctor$", r"kkt_error_thre")])
p("C10", ("fmpc",), [(r"^fmpc\.acc\.coeff$", r""), (r"^fmpc\.(backwardPass|forwardPass)$", r""), (r"^fmpc\.procOnce$", r"^this\.(coeff_list_|delta_variable_)"), (r"^fmpc\.coeff\.ctor", r""), (r"^fmpc\.ctor$", r"(break_if_llt_fails|with_)")])
p("C11", ("fmpc",), [(r"^fmpc\.acc\.variable$", r"(s_list|nu_list)"), (r"^fmpc\.updateVariables$", r"^(ret$|this\.variable_\.(s_list|nu_list)|this\.trace_data_list_.*alpha)"), (r"^fmpc\.solve$", r"^this\.variable_\.(s_list|nu_list)"),
                     (r"^fmpc\.procOnce$", r"^this\.variable_\.(s_list|nu_list)"), (r"^fmpc\.setupMeritFunc|^fmpc\.calcMeritFunc", r"^this\.variable_")])
p("C12", ("fmpc",), [(r"^fmpc\.acc\.variable$", r""), (r"^fmpc\.(procOnce|solve|backwardPass|forwardPass|updateVariables)$", r"^ret$"), (r"^fmpc\.(var|coeff)\.nan$", r""), (r"^fmpc\.procOnce$", r"^this\.variable_"),
                     (r"^fmpc\.solve$", r"^this\.(variable_|trace_data_list_)"), (r"^fmpc\.ctor$", r"check_nan"), (r"^fmpc\.updateVariables$", r"^this\.variable_")])
p("C13", ("fmpc",), [(r"^fmpc\.(setupMeritFunc|calcMeritFunc)$", r""), (r"^fmpc\.updateVariables$", r""), (r"^fmpc\.ctor$", r"(merit|enable_line_search|armijo)")])
p("C14", ("fmpc",), [(r"^fmpc\.(procOnce|solve)$", r"^this\.barrier_eps_"), (r"^fmpc\.solve$", r"^(this\.variable_|throw)"), (r"^fmpc\.ctor$", r"(barrier|init_complementary|update_barrier)"),
                     (r"^fmpc\.(procOnce)$", r"^this\.trace_data_list_.*barrier")])
p("C15", ("ddp", "fmpc"), [(r"^(ddp|fmpc)\.solve$", r"^throw$"), (r"^fmpc\.checkVariable$", r""), (r"^fmpc\.var\.(ctor|reset)$", r"")], ev=("early-idx", "early-model"))
p("C16", ("ddp", "fmpc", "cgmres"), [(r"^(ddp|fmpc|cg)\.solve$", r"^this\.(d?lambda_|barrier_eps_|trace_data_list_\.#n|current_t_)")], extra=("leftover",))
p("C17", ("ddp", "fmpc", "cgmres"), [(r"^(ddp|fmpc)\.(solve|procOnce|forwardPass|backwardPass|updateVariables)$", r"(x_list|u_list|cost_list|s_list|nu_list|lambda_list|k_list_|K_list_)(\[\])?\.#[nrc]$"),
                                    (r"^(ddp|fmpc)\.(solve|procOnce)$", r"(coeff|derivative)_list_(\[\]\.\w+)?\.#[nrc]$"), (r"^fmpc\.(var|coeff)\.ctor", r"\.#[nrc]$"), (r"^cg\.|^gm\.", r"\.#[nrc]$"), (r"^box\.", r"\.#[nrc]$"), (r"^gm\.solve", r"^this\.(H_|basis_)")], ev=("idx", "early-idx"))
p("C18", ("ddp", "fmpc", "cgmres"), [], ev=("nonterm",), extra=("nonterm",))
p("C19", ("ddp", "fmpc"), [], extra=("print",))
p("C20", ("ddp", "fmpc", "cgmres"), [(r"\.acc\.trace$", r""), (r"^(ddp|fmpc|box)\.", r"^this\.trace_data_list_"), (r"^(ddp|fmpc)\.dump$", r""), (r"^cg\.(run|prob\.dump)$", r"^stream:"), (r"^gm\.", r"^this\.err_list_")], extra=("columns",))
p("C21", (), [], extra=("compile",))
p("C22", ("cgmres",), [(r"^gm\.", r"")])
p("C23", ("cgmres",), [(r"^ode\.", r"")])
p("C24", ("cgmres",), [(r"^cg\.calcDhDuList$", r""), (r"^cg\.ctor$", r"(horizon|steady|dt_)")])
p("C25", ("cgmres",), [(r"^cg\.(setup|run|calcControlInput|eqAmulFunc|ctor)$", r"^(?!stream:)")])
p("C26", ("ddp", "fmpc"), [(r"^ddp\.procOnce$", r"^this\.(derivative_list_|last_Vx)"), (r"^fmpc\.procOnce$", r"^this\.coeff_list_\[\]\.(A|B|C|D|x_bar|g_bar|L\w*)$"), (r"^(ddp|fmpc)\.(solve|procOnce)$", r"^this\.current_t_")],
  ev=("model",))
p("C27", (), [], extra=("access",))
p("C32", ("ddp", "fmpc"), [(r"\.(acc|prob)\.", r"")])

# properties that speak about NaN or infinite values
NANP = {"C02", "C04", "C09", "C11", "C12", "C16", "C18", "C19"}
LEFT = re.compile(r"^this\.")


def match(pid, unit_id, output):
    return any(a.search(unit_id) and b.search(output) for a, b in P[pid]["pats"])
