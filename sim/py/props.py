"""Which generators and which oracle decide each property."""
import gens as g, oracles as o

PROPS = {
    "C01": {"oracle": o.c01, "gens": [(6, g.gen_core), (2, g.gen_resume), (2, g.gen_kill), (2, g.gen_stop), (1, g.gen_fail), (2, g.gen_fake), (1, g.gen_beat), (1, g.gen_net)]},
    "C02": {"oracle": o.c02, "gens": [(1, g.gen_halt), (2, g.gen_cancel), (5, g.gen_core), (2, g.gen_affinity), (3, g.gen_resume), (2, g.gen_kill), (2, g.gen_stop), (1, g.gen_fail), (2, g.gen_fake), (1, g.gen_beat), (1, g.gen_net), (1, g.gen_flimit)]},
    "C03": {"oracle": o.c03, "gens": [(6, g.gen_core), (4, g.gen_resume), (1, g.gen_kill), (1, g.gen_fail), (1, g.gen_stop), (2, g.gen_fake), (1, g.gen_beat), (1, g.gen_net)]},
    "C04": {"oracle": o.c04, "gens": [(1, g.gen_cancel), (6, g.gen_core), (2, g.gen_affinity), (2, g.gen_io), (3, g.gen_resume), (1, g.gen_kill), (1, g.gen_fail), (2, g.gen_stop), (2, g.gen_fake), (1, g.gen_beat), (1, g.gen_net), (1, g.gen_flimit)]},
    "C05": {"oracle": o.c05, "gens": [(1, g.gen_halt), (1, g.gen_cancel), (5, g.gen_core), (3, g.gen_resume), (2, g.gen_fail), (3, g.gen_stop), (2, g.gen_fake), (1, g.gen_net), (1, g.gen_flimit)]},
    "C06": {"oracle": o.c06, "gens": [(6, g.gen_resume), (2, g.gen_core), (3, g.gen_kill), (1, g.gen_stop), (1, g.gen_views)]},
    "C07": {"oracle": o.c07, "gens": [(1, g.gen_kill)]},
    "C08": {"oracle": o.c08, "gens": [(1, g.gen_halt), (1, g.gen_cancel), (3, g.gen_core), (1, g.gen_io), (3, g.gen_resume), (3, g.gen_stop), (2, g.gen_kill), (2, g.gen_fail), (2, g.gen_fake), (2, g.gen_beat), (1, g.gen_net), (1, g.gen_junk), (1, g.gen_flimit)]},
    "C09": {"oracle": o.c09, "gens": [(4, g.gen_lock), (1, g.gen_disk), (1, g.gen_kill)]},
    "C10": {"oracle": o.c10, "gens": [(8, g.gen_io), (4, g.gen_core), (2, g.gen_resume), (1, g.gen_fail), (2, g.gen_fake), (1, g.gen_cancel), (1, g.gen_halt)]},
    "C11": {"oracle": o.c11, "gens": [(1, g.gen_cancel), (5, g.gen_affinity), (6, g.gen_core), (2, g.gen_stop), (1, g.gen_fail), (2, g.gen_fake), (1, g.gen_net)]},
    "C12": {"oracle": o.c12, "gens": [(6, g.gen_fail), (2, g.gen_limbo), (2, g.gen_core), (3, g.gen_flimit)]},
    "C13": {"oracle": o.c13, "gens": [(3, g.gen_soft), (2, g.gen_halt)]},
    "C14": {"oracle": o.c14, "gens": [(1, g.gen_hard)]},
    "C15": {"oracle": o.c15, "gens": [(3, g.gen_beat), (1, g.gen_net)]},
    "C16": {"oracle": o.c16, "gens": [(1, g.gen_junk)]},
    "C17": {"oracle": o.c17, "gens": [(1, g.gen_cancel)]},
    "C18": {"oracle": o.c18, "gens": [(1, g.gen_rate)]},
    "C19": {"oracle": o.c19, "gens": [(1, g.gen_status)]},
    "C20": {"oracle": o.c20, "gens": [(1, g.gen_runner)]},
    "C21": {"oracle": o.c21, "gens": [(1, g.gen_views)]},
    "C22": {"oracle": o.c22, "gens": [(3, g.pp_core), (2, g.pp_fake), (1, g.pp_stop), (1, g.pp_fail), (1, g.pp_resume), (1, g.pp_beat), (1, g.pp_cancel), (2, g.pp_bad)]},
    "C23": {"oracle": o.c23, "gens": [(1, g.gen_disk)]},
    "C24": {"oracle": o.c24, "gens": [(3, g.gen_core), (2, g.gen_io), (1, g.gen_resume), (1, g.gen_fake), (1, g.gen_stop), (1, g.gen_runner)]},
    "C25": {"oracle": o.c25, "gens": [(1, g.gen_admin)]},
    "C27": {"oracle": o.c27, "gens": [(6, g.gen_order), (1, g.gen_core), (1, g.gen_fake)]},
    "C28": {"oracle": o.c28, "gens": [(3, g.bad_core), (2, g.bad_resume), (1, g.bad_fake)]},
    "C29": {"oracle": o.c29, "gens": [(5, g.gen_prov), (1, g.gen_stop), (1, g.gen_resume)]},
    "C30": {"oracle": o.c30, "gens": [(6, g.gen_busy), (2, g.gen_order), (1, g.gen_cancel), (1, g.gen_affinity), (1, g.gen_fail), (1, g.gen_spawn)]},
    "C26": {"oracle": o.c26, "gens": [(1, g.gen_spawn)]},
}
