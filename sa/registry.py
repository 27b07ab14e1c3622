from .rules import acc_rule, accobj_rule, bus_rule, layout_rule, link_rule, lock_rule, prim_rule, read_rule, sample_rule, size_rule, value_rule, conv_rule, zip_rule, file_rule, xml_rule, copy_rule, task_rule, image_rule, record_rule, export_rule, final_rule

PROPS = {
    'P01': dict(run=[lambda db, rep: layout_rule.check(db, rep, 4)], nonzero=['fields_checked_read', 'fields_checked_write'],
                rules=['layout']),
    'P02': dict(run=[lambda db, rep: layout_rule.check(db, rep, 3)], nonzero=['fields_checked_read', 'fields_checked_write'],
                rules=['layout']),
    'P03': dict(run=[lambda db, rep: link_rule.check(db, rep, 4), link_rule.check_ca, prim_rule.check_children, image_rule.link], nonzero=['link_accesses', 'files'], rules=['link', 'image-link']),
    'P04': dict(run=[lambda db, rep: link_rule.check(db, rep, 3), link_rule.check_chains, image_rule.link3], nonzero=['link_accesses', 'list heads', 'list links', 'files'], rules=['link', 'image-link']),
    'P05': dict(run=[lambda db, rep: size_rule.check_declared(db, rep, size_rule.check_counts(db, rep)), prim_rule.check_patches, prim_rule.check_header,
                     prim_rule.check_align, prim_rule.check_positions, prim_rule.check_numbers, image_rule.extent],
                nonzero=['size_obligations', 'patch_variants', 'header_fields', 'position_patches', 'number_primitives', 'files'], rules=['size', 'patch', 'header', 'align', 'number', 'image-extent']),
    'P06': dict(run=[bus_rule.run, bus_rule.dispatch], nonzero=['channels', 'channel bits proved', 'record sizes proved', 'dispatch cases'], rules=['bus']),
    'P07': dict(run=[acc_rule.run, accobj_rule.run], nonzero=['accessor pairs proved', 'named properties', 'independent pairs', 'values set', 'values observed'], rules=['acc']),
    'P08': dict(run=[lock_rule.run], nonzero=['queue savers', 'guarded accesses', 'lock operations', 'worker threads', 'worker calls', 'cache entry points', 'measurement starts', 'joins', 'shared member writes'], rules=['lock']),
    'P09': dict(run=[sample_rule.run, final_rule.counters], nonzero=['group counters on file', 'samples followed', 'saver scenarios', 'record primitives', 'queue operations', 'queue entry points', 'master time values', 'trim cases', 'worker ends', 'worker states', 'delegations'], rules=['sample', 'group-counters']),
    'P10': dict(run=[read_rule.run], nonzero=['record scenarios', 'range scenarios', 'signal data scenarios', 'MDF3 record scenarios', 'MDF3 group scenarios', 'record id widths', 'cursor paths', 'data group scenarios', 'observer scenarios', 'sample store scenarios', 'sample fetch scenarios'], rules=['read']),
    'P11': dict(run=[value_rule.run], nonzero=['value scenarios: ' + x for x in ('get', 'set', 'bytes', 'fetch', 'text', 'vlsd', 'valid', 'dispatch', 'setdispatch', 'setlist', 'stamp')], rules=['value']),
    'P12': dict(run=[conv_rule.run], nonzero=['formula scenarios', 'table scenarios', 'conversion dispatch cases', 'observer value cases', 'list cases'], rules=['conv']),
    'P13': dict(run=[zip_rule.run], nonzero=['zlib runs', 'transposition cases', 'DZ block cases', 'attachment cases', 'data positions'], rules=['zip']),
    'P14': dict(run=[file_rule.run], nonzero=['reader paths', 'writer paths', 'writer init paths', 'file paths', 'queue functions', 'uses of the file', 'opening paths'], rules=['file']),
    'P15': dict(run=[xml_rule.run], nonzero=['round trips', 'observers compared', 'malformed numbers', 'metadata classes', 'setters', 'property histories', 'plain texts', 'enumeration values'], rules=['xml']),
    'P16': dict(run=[copy_rule.run], nonzero=['copies', 'observers_compared', 'children_copied'], rules=['copy-differs']),
    'P17': dict(run=[task_rule.run, task_rule.forward], nonzero=['scenarios', 'outcomes', 'operations', 'record histories'], rules=['task-outcome', 'task-files', 'task-temporary', 'task-groups', 'task-samples', 'task-records']),
    'P18': dict(run=[image_rule.tree], nonzero=['files', 'observations'], rules=['image-tree']),
    'P19': dict(run=[record_rule.run], nonzero=['prepared groups', 'prepared MDF3 groups', 'record ids'], rules=['record-place', 'record-id']),
    'P26': dict(run=[final_rule.finalize], nonzero=['unfinalized files'], rules=['finalize']),
    'P25': dict(run=[export_rule.export], nonzero=['exported functions', 'executions'], rules=['export']),
}
