from checks import nav, dsl, misc, kern, ref, bdry
CHECKS = {"C01": nav.c01, "C02": nav.c02, "C03": nav.c03, "C04": dsl.c04, "C05": dsl.c05, "C06": dsl.c06,
          "C07": dsl.c07, "C08": dsl.c08, "C09": dsl.c09, "C10": misc.c10, "C11": dsl.c11, "C12": misc.c12,
          "C13": kern.c13, "C14": kern.c14, "C15": kern.c15, "C16": kern.c16, "C17": kern.c17, "C18": kern.c18, "C19": kern.c19, "C20": kern.c20, "C21": kern.c21,
          "C22": ref.c22, "C23": ref.c23, "C24": ref.c24, "C25": bdry.c25}
KIND = {"C01": "nav", "C02": "nav", "C03": "nav", "C04": "dsl", "C05": "dsl", "C06": "dsl", "C07": "dsl", "C08": "dsl",
        "C09": "dsl", "C10": "misc", "C11": "sched", "C12": "misc", "C13": "kern", "C14": "kern", "C15": "kern",
        "C16": "kern", "C17": "kern", "C18": "kern", "C19": "kern", "C20": "kern", "C21": "kern",
        "C22": "kern", "C23": "kern", "C24": "kern", "C25": "kern"}
