MC = "TLA+ model checked exhaustively by TLC over small histories, every history replayed into the real code, plus TLC trace validation of larger random histories"
NUM = "TLA+ specification with exact arithmetic; TLC validates values recorded from the real code"
CH.update({"C03": MC + " (Status)", "C04": MC + " (Status)", "C10": MC + " (Combo)", "C11": MC + " (Resource)",
           "C12": MC + " (Channel)", "C13": MC + " (Cond)",
           "C15": NUM + " (Damage)", "C16": NUM + " (Damage)", "C17": NUM + " (Damage, TraceNum, TraceFreq)",
           "C18": "TLA+ model of the kill-time race checked by TLC (MCKill) and TLC trace validation of the real estimator",
           "C21": NUM + " (TraceSum)", "C25": NUM + " (Damage step functions, TraceStat; MCStat model checked)"})
CH.update({"C19": TV + " (whole pipeline, asked repeatedly and interleaved)",
           "C20": "TLA+ model of versioned libraries checked by TLC (MCLibrary) and TLC trace validation of every supported library (TraceLib)",
           "C22": TV + " (whole pipeline, presses imported from files and examples)",
           "C26": "TLA+ model of advertised effects checked by TLC (MCAdvert) and TLC trace validation of exhaustive small actions and all real ones"})
