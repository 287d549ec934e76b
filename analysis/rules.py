import rules_ops, rules_cross, rules_ctrl, rules_effects, rules_proc, rules_pop, rules_codec, rules_yspec, rules_launch, rules_cli, rules_small
