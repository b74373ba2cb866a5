driver(drv_canon symb)
driver(drv_context symb)
driver(drv_exprhist symb)
driver(drv_rewrite symb)
driver(drv_wick wick)
driver(drv_optimize optimize)
driver(drv_cache eval)
driver(drv_eval optimize)
driver(drv_registry symb)
driver(drv_opregistry mbpt)
driver(drv_tree symb)
driver(drv_orders symb)
driver(drv_indices symb)
driver(drv_fresh symb)
driver(drv_scalars symb)
driver(drv_syntax symb)
driver(drv_export export)
driver(drv_spin mbpt)
driver(drv_mbpt mbpt)
driver(drv_parallel symb)
driver(drv_threads mbpt)
