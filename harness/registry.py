"""Property -> driver, trace specification, design models."""
PROPS = {}


def reg(ids, driver, trace, mc=(), level="model_checking", **kw):
    for i in ids.split():
        PROPS[i] = dict(driver=driver, trace=trace, mc=list(mc), level=level, **kw)


reg("A01 A02 A03 A04 A05", "allocation", "Trace_Allocation", [{"module": "MC_Allocation"}])
reg("A06", "allocation", "Trace_Allocation", [{"module": "MC_Normalization"}])
reg("H01 H02 H03", "hardlinks", "Trace_HardLinks", [{"module": "MC_HardLinks"}])
reg("L01", "topology", "Trace_Topology", [{"module": "MC_Topology"}])
reg("L02 L03 L04 L05 L06 L07 L08", "linking", "Trace_Linking", [{"module": "MC_Linking"}])
reg("W01 W02 Q01 Q02", "sysmodels", "Trace_SystemModels", [{"module": "MC_SystemModels"}])
reg("U01 U02 U03 U04", "distributions", "Trace_Distributions", [{"module": "MC_Distributions"}])
reg("F01 F02 F03", "parameters", "Trace_Parameters", [{"module": "MC_Parameters"}])
reg("S01", "caching", "Trace_Caching", [{"module": "MC_Caching"}])
reg("S02 S03 S04", "runs", "Trace_Runs", [{"module": "MC_Runs"}])
reg("S05 S06 S07", "plumbing", "Trace_Plumbing", [{"module": "MC_Plumbing"}])
reg("S08", "reports", "Trace_Report", [{"module": "MC_Report"}])
reg("S09 S10", "databases", "Trace_Databases", [{"module": "MC_Databases"}])
reg("S11", "extraction", "Trace_Extraction", [{"module": "MC_Extraction"}])
reg("C01", "corrections", "Trace_Corrections", [{"module": "MC_Corrections"}])
reg("R01", "tables", "Trace_Tables", [{"module": "MC_Tables"}])
reg("R02", "details", "Trace_Details", [{"module": "MC_Details"}])
reg("S12 S13", "formats", "Trace_Format", [{"module": "MC_Format"}])
reg("E01 E02 E03", "pipeline", "Trace_Pipeline", [{"module": "MC_Pipeline"}])
