"""Which named functions are units of analysis (shown as one event inside other units) and which are looked through.
Functions that are not in functions.txt (new helpers) are always looked through."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
INLINE = re.compile(r'''^(
  .*::new | .*\ as\ (From|PartialEq|Default|FromIterator|Deref|DerefMut|Drop|Future|Into)\b.* | .*::is_[a-z]+ | .*Options::.* | .*Config::.* | (ChildSpec|WebsocketCommands)::.*
 | Send::with_.* | From::.* | (Pid|Node)::(local|remote|id|node) | Reference::(local|remote|id|node)
 | process_(exists_lock|drop|sender|name_lookup|insert|name_remove|alive|flags|set_flags|set_exit_reason|len|register_timer|read_timer|destroy_timer)
 | node_(alive|local_process|get_cookie|set_cookie|lookup_local|lookup_remote)
 | SupervisedChild::(id|is_.*) | Supervisor::(find_child|find_child_id|remove_child)
 | lookup_process | remove_process | count_processes | register_process | list_processes
 | convert_item | process_item | process_send_unoptimal | process_send_optimal
 | signal_handler | error_to_reason | Local::.* | RuntimeInfo::load
 | Process::(current|whereis|sleep|timeout|receiver|alive|flags|set_flags|registered|send|register|unregister|monitor|monitor_alias|cancel_timer|read_timer) | GenServer::(cast|cast_after) | ProcessReceiver::(strict_type_checking|for_message)
 | Node::(alive|current|is_local|is_remote)
 | Registry::(lookup_by_key|remove_by_key) | HashRing::(add|set|remove|clear|find|map).*
)$''', re.X)
KEEP = {'Reference::new'}
def known():
    return [l.strip() for l in open(os.path.join(HERE, 'functions.txt')) if l.strip()]
def opaque():
    return {k for k in known() if k in KEEP or not INLINE.match(k)}
if __name__ == '__main__':
    import trace as T
    p = T.load()
    ks = sorted({B.key for b, B in p.bodies.items() if not B.derived and '{closure' not in b and 'promoted' not in b and B.kind in ('Fn', 'AssocFn') and not B.mac})
    open(os.path.join(HERE, 'functions.txt'), 'w').write('\n'.join(ks) + '\n')
    print(len(ks), len(opaque())); 
