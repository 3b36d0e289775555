"""Small-scope models (spec/MC_*.tla) explored for each property."""
MODELS = {
    "C01": ["MC_Replace"], "C02": ["MC_Heap"], "C03": ["MC_Replace"], "C04": ["MC_Replace"],
    "C05": ["MC_Poly", "MC_Replace"], "C06": ["MC_Poly"], "C07": ["MC_Smooth", "MC_Replace"],
    "C08": ["MC_Detect"], "C09": ["MC_Detect"], "C10": ["MC_Detect"], "C11": ["MC_Detect"], "C12": ["MC_Kernel"],
    "C13": ["MC_Detect"], "C14": ["MC_Stats"], "C15": ["MC_Stats"], "C16": ["MC_Smooth"], "C17": ["MC_Smooth"],
    "C18": ["MC_SSA"], "C19": ["MC_Stats"], "C20": ["MC_Transc", "MC_Signal"], "C21": ["MC_Stats"], "C22": ["MC_Signal"],
    "C23": ["MC_Signal"], "C24": ["MC_Detect"], "C25": ["MC_Optim"], "C26": ["MC_Optim"], "C27": ["MC_Signal"],
    "C28": ["MC_Kernel"], "C29": ["MC_Loop"], "C30": ["MC_Detect"], "C31": ["MC_Kernel"], "C32": ["MC_Tools"], "C33": ["MC_Tools"],
    "C34": ["MC_Detect", "MC_Tools"], "C35": ["MC_Kernel"], "C36": ["MC_Layout"], "C37": ["MC_Conc"], "C38": ["MC_Conc"],
}
