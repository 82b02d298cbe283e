CHECKS = {
    "V01": ("c_slice", "IndexRead"),
    "V02": ("c_slice", "Assign"),
    "V03": ("c_slice", "KeepReduce"),
    "V04": ("c_slice", "FwdSlice"),
    "V05": ("c_loc", "LocationSelect"),
    "V06": ("c_bucket", "Buckets"),
    "V07": ("c_files", "Files"),
    "V08": ("c_lazy", "Lazy"),
    "V13": ("c_save", "Save"),
    "V20": ("c_crds", "Crds"),
    "V10": ("c_conv", "Convert"),
    "V11": ("c_arith", "Arith"),
    "V12": ("c_time", "Times"),
    "V14": ("c_par", "Par"),
    "V16": ("c_interp", "Interp"),
    "V17": ("c_stream", "Lines"),
    "V15": ("c_stream", "Division"),
    "V18": ("c_amr", "Amr"),
    "V21": ("c_calc", "Ops"),
    "V22": ("c_calc", "Deriv"),
    "V23": ("c_calc", "Lines"),
    "V24": ("c_seed", "Seeds"),
    "V25": ("c_rot", "Rot"),
    "V26": ("c_cotr", "Crds"),
    "V19": ("c_npdt", "NpDatetime"),
    "V28": ("c_tree", "Tree"),
    "V30": ("c_readers", "Readers"),
    "V31": ("c_xdmf", "XDMF"),
    "V33": ("c_stagger", "Stagger"),
    "V29": ("c_map", "SphereMap"),
    "V34": ("c_dip", "Dipole"),
    "V32": ("c_sep", "Separators"),
    "V27": ("c_eqn", "Text"),
    "V09": ("c_names", "Names"),
    "V35": ("c_plot", "Plot"),
}
