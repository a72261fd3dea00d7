"""Which functions carry which property.  Patterns are matched against whole module-less keys of the reference tree."""
import re
PROPS = {
 'C01': r'''derive (ExitReason|SystemMessage|ProcessFlags|InternalBitFlags)|static ProcessFlags::TRAP_EXIT
   |process_exit|process_exit_signal_linked|Process::(exit|flags|set_flags)|node_process_send_exit|process_(set_)?flags|process_set_exit_reason
   |Exit::new|node_remote_supervisor|ExitReason::is_.*|<ExitReason as PartialEq.*|<Process as Drop>::drop|link_process_down|spawn_internal|ProcessRegistration::new''',
 'C02': r'''guard (process_exists_lock|link_create|monitor_install)|derive (ExitReason|SystemMessage|Pid)|static (PROCESS_REGISTRY|LINKS|MONITORS|ALIASES)
   |<Process as Drop>::drop|process_drop|process_name_remove|link_process_down|monitor_process_down|monitor_destroy_all|alias_destroy_all|process_exit(_signal_linked)?
   |node_process_(link_down|monitor_down|monitor_destroy_all|link_destroy_all)|spawn_internal|Process::new|process_alive|process_set_exit_reason|ProcessRegistration::new|process_insert|<AsyncCatchUnwind.*|AsyncCatchUnwind::.*|LinkDown::new|MonitorDown::new''',
 'C03': r'''guard (process_exists_lock|link_create|monitor_install)|derive Pid|static (ID|PROCESS_REGISTRY)|static PROCESS
   |spawn_internal|Process::(spawn|spawn_link|spawn_monitor|new|current|alive)|<AsyncCatchUnwind.*|AsyncCatchUnwind::.*|process_insert|process_alive|ProcessRegistration::new|link_install|link_create|monitor_install|monitor_create|process_exists_lock|<Process as Drop>::drop|static ID''',
 'C04': r'''guard (process_exists_lock|link_create|node_remote_supervisor_down)|derive (Pid|ExitReason)|static (LINKS|NODE_LINKS)
   |link_.*|Process::(link|unlink|spawn_link)|process_exists_lock|node_process_link_.*|node_link_destroy|Link::new|LinkDown::new|spawn_internal|process_exit_signal_linked|<Process as Drop>::drop|node_remote_supervisor|unlink_flush|node_send_frame|node_register''',
 'C05': r'''guard (process_exists_lock|monitor_install|node_remote_supervisor_down)|derive (Pid|Reference|Dest|ExitReason|SystemMessage)|static (MONITORS|NODE_MONITORS|Reference::new::REF)
   |monitor_.*|Process::(monitor|monitor_alias|demonitor|spawn_monitor)|process_exists_lock|node_process_monitor_.*|node_monitor_.*|Node::(monitor|demonitor)|Monitor::new|MonitorDown::new|MonitorUpdate::new|alias_(create|destroy|retrieve)
   |ProcessReceiver::.*|process_item|convert_item|spawn_internal|<Process as Drop>::drop|node_remote_supervisor|<Dest as .*|Dest::is_.*''',
 'C06': r'''guard process_register|derive Pid|static (PROCESS_NAMES|PROCESS_REGISTRY)
   |process_(register|unregister|name_.*|drop)|Process::(register|unregister|registered|whereis)|<Process as Drop>::drop|ProcessRegistration::new|process_sender|process_insert''',
 'C07': r'''derive (Alias|Reference)|static (ALIASES|Reference::new::REF)
   |alias_.*|Process::(alias|unalias|monitor_alias|demonitor)|process_send|node_process_send_with_alias|<Process as Drop>::drop|process_item|ProcessReceiver::.*|Send::with_alias|node_forward_send|node_remote_supervisor|Reference::(new|is_.*|local|id)|GenServer::reply|From::.*|monitor_(process_down|install|destroy)|node_process_monitor_down''',
 'C08': r'''derive SystemMessage
   |ProcessReceiver::.*|process_item|convert_item|Process::(receive|receiver)|deserialize_value|<ProcessItem as From.*|unlink_flush''',
 'C09': r'''guard node_(send_frame|register_workers)|derive (Dests?|Pid|Reference|Node|SendTarget)|static (PROCESS_NAMES|PROCESS_REGISTRY)
   |process_send.*|process_sender|Process::send|<Dests? as .*|Dest::is_.*|Send::.*|<SendTarget as .*|node_process_send_with_.*|node_forward_send|alias_retrieve|process_name_lookup|node_send_frame|node_remote_supervisor|<\S+ as PartialEq<Dest>>::eq''',
 'C10': r'''derive Reference|static (PROCESS_TIMERS|Reference::new::REF)
   |Process::(send_after|cancel_timer|read_timer|sleep)|process_(register_timer|read_timer|destroy_timer)|GenServer::cast_after''',
 'C11': r'''derive (From|GenServerMessage|Reference|CallError|Timeout)|static Reference::new::REF
   |GenServer::(call|cast|reply|stop|cast_after)|From::.*|Process::(monitor|monitor_alias|demonitor|receiver|timeout)|ProcessReceiver::(select|remove|for_message|new)|<(Supervisor|Registry)Error as From.*|alias_retrieve|Reference::new''',
 'C12': r'''derive (GenServer.*|ExitReason|From)
   |start_gen_server|GenServer::(start|start_link|terminate|handle_call|handle_cast|handle_info|reply)|GenServerOptions::.*|<GenServerOptions as .*|error_to_reason|Process::(spawn|spawn_link|register)|spawn_internal|<ExitReason as PartialEq.*''',
 'C13': r'''derive (Shutdown|ExitReason|ChildSpec)
   |shutdown.*|unlink_flush|SupervisedChild::shutdown|Supervisor::(terminate_child_by_index|terminate_children|child_spec|terminate_child_by_id|delete_child_by_id)|ChildSpec::.*|<Shutdown as .*|Registry::(terminate_children|stop_process|child_spec|with_shutdown|new)|<(Supervisor|Registry) as GenServer>::terminate|Task::shutdown|WebsocketServer::child_spec|process_exit''',
 'C14': r'''derive (Restart|SupervisionStrategy|SupervisedChild|ChildSpec|Supervisor|ExitReason)
   |Supervisor::(restart.*|try_again_restart|strategy|with_children|add_child|new|remove_child|find_child.*|start_child_by_index|start_children|terminate_children|terminate_child_by_index|check_auto_shutdown)|<Supervisor as .*|SupervisedChild::.*|ChildSpec::(restart|new)''',
 'C15': r'''derive Supervisor
   |Supervisor::(add_restart|max_restarts|max_duration|new|restart|try_again_restart|restart_exited_child|restart_multiple_children)|<Supervisor as .*''',
 'C16': r'''derive (AutoShutdown|Supervisor(Options)?|SupervisedChild|ChildSpec)
   |Supervisor::(start_children|terminate_children|init_children|check_auto_shutdown|auto_shutdown|restart_exited_child|start_child_by_index|terminate_child_by_index|start|start_link|new|with_children|add_child|remove_child)|<Supervisor as .*|ChildSpec::significant|SupervisedChild::.*''',
 'C17': r'''derive (Supervisor.*|ChildType|ChildSpec)
   |Supervisor::(start_new_child|.*_by_id|remove_child|find_child.*|count_.*|which_.*|start_child|terminate_child|restart_child|delete_child|start_child_by_index|terminate_child_by_index|add_child|try_again_restart|restart_exited_child|init_children|start_children|terminate_children)|<Supervisor as .*|SupervisedChild::(id|is_.*)''',
 'C18': r'''derive Registry.*|static REGISTRY
   |Registry::.*|<Registry as .*|<RegistryKey as .*|<RegistryError as .*|(register|remove|lookup|count|list)_process(es)?|RegistryOptions::.*|<GenServerOptions as .*''',
 'C19': r'''<Hello as (Encode|Decode|BorrowDecode).*|derive (Codec|Hello|NodeOptions|Frame)|static (FRAME_CONFIG|MARKER_LENGTH|NODE_COOKIE)
   |Hello::.*|node_remote_(accepter|connector)|node_local_(listener|supervisor)|node_(get|set)_cookie|Node::(set_cookie|clear_cookie|start|connect)|node_accept|node_register_workers|Codec::.*|<Codec as .*|NodeOptions::handshake_timeout|node_lookup_remote''',
 'C20': r'''guard node_.*|derive (Node.*|Frame)|static NODE_.*
   |node_(register|register_workers|send_frame|accept|forget|disconnect|remote_supervisor_down|local_stop|connection_lost|lookup_.*|remote_sender|remote_connector|remote_accepter)|NodeRegistration::new|Node::(connect|forget|disconnect)|node_process_send_with_.*''',
 'C21': r'''guard (process_exists_lock|link_create|monitor_install)|<(Exit|ExitReason|Link|LinkDown|Monitor|MonitorDown|MonitorUpdate|Ping|Pong|Send) as (Encode|Decode|BorrowDecode).*|derive (Node|NodeWire|Pid|PidWire|Reference|ReferenceWire|ExitReason|Frame|Send.*|Link.*|Exit|Monitor.*)|static NODE_(LINKS|MONITORS)
   |node_remote_supervisor|node_process_.*|node_monitor_.*|node_link_destroy|node_forward_send|<Frame as .*|(Exit|Link|LinkDown|Monitor|MonitorDown|MonitorUpdate|Ping|Pong)::new|Send::.*|link_(install|destroy|create|fill_info)|monitor_(install|destroy|create)|process_exit(_signal_linked)?|alias_retrieve|node_remote_(receiver|sender)''',
 'C22': r'''guard node_.*|derive Node.*|static NODE_.*
   |node_(remote_supervisor_down|connection_lost|forget|local_stop|disconnect|local_panic|monitor_create|monitor_destroy|register|accept|register_workers|local_supervisor|local_listener|local_start|remote_supervisor|list.*)|node_process_(link|monitor)_.*|node_link_destroy|Node::(monitor|demonitor|disconnect|forget|stop)|<NodeRemote.* as Drop>::drop|<NodeLocalSupervisor as Drop>::drop|link_(create|install|destroy)|monitor_(create|install|destroy.*)|process_exit_signal_linked''',
 'C23': r'''<(Exit|ExitReason|Link|LinkDown|Monitor|MonitorDown|MonitorUpdate|Ping|Pong|Send) as (Encode|Decode|BorrowDecode).*|derive (Pid.*|Reference.*|Node|NodeWire|Dest|From|Local|Codec|Frame)|static (FRAME_CONFIG|MARKER_LENGTH|INVALID_NODE_ID|LOCAL_NODE_ID)
   |<(Pid|Reference|Node|Local<T>) as (Serialize|Deserialize|Debug|Deref|DerefMut)>::.*|(Pid|Reference)::.*|Node::(is_.*|new|name|address|current|alive)|<Node as .*|<\S+ as PartialEq<Node>>::eq|Codec::.*|<Codec as .*|<Frame as .*|serialize_value|deserialize_value|node_lookup_.*|node_register|Local::.*|node_remote_(sender|receiver)|<NodeRegistration.*|convert_item|<\S+ as Visitor>::.*|wire .*''',
 'C24': r'''locks .*''',
 'C25': r'''guard HashRing::.*|HashRing::.*|<HashRing.*''',
 'C26': r'''derive ApplicationMessage|static Application::.*
   |Application::.*|ApplicationConfig::.*|<ApplicationConfig as .*|signal_handler|panic_hook|main(#1)?|runner(#1)?|witness_body|<\w+_(Main|Test)Struct as Application>.*''',
 'C27': r'''derive Websocket.*
   |WebsocketHandler::.*|start_websocket_handler|websocket_process_commands|WebsocketServer.*|<WebsocketServer.*|server_.*|WebsocketCommands::.*|<WebsocketCommands as .*''',
 'C28': r'''derive (\S*Options|\S*Config|ChildSpec|Shutdown|Restart|AutoShutdown|SupervisionStrategy|ChildType|RegistryKey|Dest|ExitReason|Supervisor|Registry)|static ProcessFlags::TRAP_EXIT
   |\S*Options::.*|<\S*Options as .*|\S*Config::.*|<\S*Config as .*|ChildSpec::.*|Supervisor::(auto_shutdown|max_restarts|max_duration|strategy|add_child|with_children|new)|<Supervisor as Default>.*|Registry::(with_.*|new)|<(ExitReason|Dests?|RegistryKey|Shutdown|Node|SendTarget|ArgumentError|SupervisorError|RegistryError) as (From|FromIterator).*
   |<(Dest|Pid|Reference|&str|String|ExitReason|Node) as PartialEq<.*|WebsocketServer(<T>)?::(new|child_spec)|WebsocketCommands::.*|<WebsocketCommands as .*|<Reference as Default>.*|ExitReason::.*|ProcessReceiver::(new|strict_type_checking|for_message)|Application::config|ConsoleServer::new|<ProcessInfo as Default>.*''',
 'C29': r'''derive (TaskError|NoPermits|Timeout)
   |(Owned)?Semaphore::.*|Task::.*|<TaskHandle.*|Process::(timeout|sleep)|From::is_alias''',
 'C31': r'''derive NodeRemote.*|derive NodeOptions
   |node_remote_(sender|receiver|supervisor|connector|accepter)|node_local_supervisor|NodeOptions::heartbeat_.*|<NodeOptions as .*|<NodeRemote.* as Drop>::drop''',
 'C32': r'''guard node_(send_frame|register_workers)|process_send.*|Process::send|node_send_frame|node_register_workers|node_remote_(sender|receiver|supervisor)|node_process_send_with_.*|node_forward_send|ProcessReceiver::.*|process_exit.*|link_process_down|monitor_process_down''',
 'C33': r'''guard node_.*|derive (Node|NodeState|NodeOptions|NodeLocal.*)|static (NODE_.*|LOCAL_NODE_ID|INVALID_NODE_ID)
   |Node::.*|node_(alive|local_.*|register|accept|list.*|disconnect|forget|lookup_.*|get_cookie|set_cookie|remote_supervisor_down|connection_lost|register_workers)|NodeRegistration::new|NodeOptions::.*|<NodeLocalSupervisor as .*|<NodeOptions as .*''',
 'C34': r'''derive (ProcessInfo|RuntimeInfo|Console.*|ProcessFlags|Supervisor(ChildInfo|Counts))|static CONSOLE_NAME
   |Process::(info|list|alive|registered|whereis|current|flags)|process_(info|list|len|name_list|name_lookup|alive|flags)|ProcessInfo::.*|<ProcessInfo as .*|link_fill_info|monitor_fill_info|ConsoleServer::.*|<ConsoleServer as .*|RuntimeInfo::.*|Supervisor::(count_.*|which_.*)''',
}
def rx(p): return re.compile('(?:' + re.sub(r'\s*\n\s*', '', PROPS[p]) + r')\Z')
def keys_of(p, keys):
    r = rx(p)
    return sorted(k for k in keys if r.match(k))
if __name__ == '__main__':
    import anchors
    ks = anchors.known()
    un = set(ks)
    for p in PROPS:
        m = keys_of(p, ks); un -= set(m); print(p, len(m))
    print(len(un), sorted(un))
