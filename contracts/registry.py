"""which contracts decide which property"""
ALL = [
    'caller-provided memory is what the parameters say (length fields are true)',
    'std::string and boost::container::list satisfy the contracts in models/ (sequence semantics, allocation never fails)',
    'unified_out logging is free of effects on the library',
    'each call runs alone (single-threaded semantics)',
]
CHECKS = {}


def units(files, configs=([],), **kw):
    return [dict(kw, file=f, flags=list(c)) for f in files for c in configs]


BIG, HUGE, MAX = ['-DST_ASIO_MSG_BUFFER_SIZE=100000'], ['-DST_ASIO_HUGE_MSG'], ['-DST_ASIO_MSG_BUFFER_SIZE=65535']
CHECKS['P01'] = {
    'units': units(['pack.cpp', 'pack2.cpp', 'pack4.cpp'], ([], BIG, HUGE), entries='p01_.*') + units(['pack.cpp', 'pack2.cpp'], (MAX,), entries='p01_.*', tier='thorough'),
    'assumptions': ALL,
}
CHECKS['P02'] = {
    'units': units(['pack.cpp', 'pack3.cpp'], ([], BIG), entries='p02_.*', cost={'p02_prefix_suffix_pack_msg': 100}),
    'assumptions': ALL,
}
CHECKS['P03'] = {
    'units': units(['unp.cpp'], ([], ['-DUNP_BASIC'], HUGE), entries='p03_.*', cost={'p03_unpacker_parse_stripped': 60, 'p03_unpacker_parse_whole': 40}) +
    units(['unp2.cpp'], (BIG, BIG + ['-DUNP_STRING'], HUGE + ['-DST_ASIO_MSG_BUFFER_SIZE=1000000']), entries='p03_.*', cost={'p03_flexible_parse_stripped': 120, 'p03_flexible_parse_whole': 80}) +
    units(['unp3.cpp'], ([], ['-DUNP_UNIQUE'], HUGE), entries='p03_.*'),
    'assumptions': ALL,
}
SCAT = ['-DST_ASIO_SCATTERED_RECV_BUFFER', '-DST_ASIO_RECV_BUFFER_TYPE=std::vector<boost::asio::mutable_buffer>', '-DST_ASIO_MSG_BUFFER_SIZE=100000']
READS = 'p0[345]_(unpacker_read|flexible_read|non_copy|fixed|stream|delimited_read|udp_.*)$'
CHECKS['P03']['units'] += units(['unp.cpp', 'unp2.cpp', 'unp3.cpp'], (SCAT,), entries=READS)
CHECKS['P04'] = {
    'units': units(['unp4.cpp'], entries='p04_.*', cost={'p04_delimited_parse_stripped': 180, 'p04_delimited_parse_whole': 100}) + units(['unp4.cpp'], (SCAT,), entries=READS) +
    units(['unp4.cpp'], (BIG,), entries='p04_.*', tier='thorough'),
    'assumptions': ALL,
}
CHECKS['P05'] = {'units': units(['unp5.cpp'], ([], ['-DUNP_UNIQUE'], BIG, SCAT), entries='p05_.*'), 'assumptions': ALL}
CHECKS['P06'] = {'units': units(['buf.cpp'], entries='p06_.*', cost={'p06_append2': 40, 'p06_erase': 15}), 'assumptions': ALL + ['realloc always moves the storage and never fails']}
FULL = ['-DST_ASIO_FULL_STATISTIC']
CHECKS['P07'] = {'units': units(['queue.cpp'], ([], ['-DQ_NOLOCK'], FULL), entries='p07_.*', cost={'p07_move_items_out_bytes': 20}), 'assumptions': ALL}
CHECKS['P08'] = {'units': units(['wrap.cpp'], ([], FULL, ['-DST_ASIO_SYNC_SEND', '-DW_PROMISE', '-DBOOST_THREAD_PROVIDES_FUTURE']), entries='p08_.*'), 'assumptions': ALL}
CHECKS['P09'] = {'units': units(['stat.cpp'], ([], FULL), entries='p09_.*'), 'assumptions': ALL + ['statistic::now() returns some time']}

import os
NET = ['-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'models', 'net')]
LINK = ALL + [
    'Boost.Asio, Boost.Thread and the message queue satisfy the contracts in models/net and contracts/net.h (the queue\'s contract is decided by P07)',
    'other threads act only between the steps of the function under contract (queue, flag and condition operations are atomic)',
    'time() does not go backwards',
]


def net(files, configs=([],), **kw):
    return units(files, [NET + list(c) for c in configs], **kw)


ALLS, MSGN, BATCHN = ['-DST_ASIO_WANT_ALL_MSG_SEND_NOTIFY'], ['-DST_ASIO_WANT_MSG_SEND_NOTIFY'], ['-DST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY']
CHECKS['P10'] = {
    'units': net(['send.cpp'], ([], BATCHN + ALLS, MSGN + ALLS, MSGN, BATCHN), entries='p10_.*', cost={'p10_start_write': 15}) +
    net(['send.cpp'], (FULL + ALLS,), entries='p10_(?!start_write).*') + net(['send.cpp'], (FULL + ALLS,), entries='p10_start_write', tier='thorough', cost={'p10_start_write': 110}) +
    net(['send2.cpp'], entries='p11_direct_send.*', cost={'p11_direct_send_list': 14}),
    'assumptions': LINK,
}
SHRINK = ['-DST_ASIO_SHRINK_SEND_BUFFER']
CHECKS['P11'] = {
    'units': net(['send2.cpp'], entries='p11_.*', cost={'p11_send_msg': 53, 'p11_send_native_msg': 24, 'p11_direct_send_list': 14}) + net(['send2.cpp'], (SHRINK,), entries='p11_(shrink|direct_send)', cost={'p11_shrink': 9}),
    'assumptions': LINK,
}
PASSIVE, SDISP, BDISP, SRECV = ['-DST_ASIO_PASSIVE_RECV'], ['-DST_ASIO_SYNC_DISPATCH'], ['-DST_ASIO_DISPATCH_BATCH_MSG'], ['-DST_ASIO_SYNC_RECV']
CHECKS['P12'] = {
    'units': net(['disp.cpp'], ([], BDISP, SRECV, SRECV + PASSIVE), entries='p12_.*') + net(['disp.cpp'], (FULL,), entries='p12_.*', tier='thorough', cost={'p12_offer': 60}) +
    net(['recv.cpp'], ([], SDISP, PASSIVE, PASSIVE + SDISP), entries='p13_read_done', cost={'p13_read_done': 20}),
    'assumptions': LINK,
}
CHECKS['P13'] = {
    'units': net(['recv.cpp'], ([], SDISP, PASSIVE, PASSIVE + ['-DNDEBUG'], BDISP), entries='p13_.*', cost={'p13_read_done': 20}) +
    net(['recv.cpp'], (FULL, PASSIVE + SDISP), entries='p13_.*', tier='thorough') + net(['disp.cpp'], (SRECV,), entries='p12_sync_.*'),
    'assumptions': LINK,
}
ALIGN, DELAY5 = ['-DST_ASIO_ALIGNED_TIMER'], ['-DST_ASIO_DELAY_CLOSE=5']
CHECKS['P14'] = {
    'units': net(['life.cpp'], ([], PASSIVE + SRECV, PASSIVE + ['-DNDEBUG'], DELAY5, BDISP + SRECV), entries='p14_.*', cost={'p14_graceful': 8, 'p14_force': 5, 'p14_delayed_close': 5}),
    'assumptions': LINK + ['the callback in progress holds exactly ST_ASIO_MIN_ACI_REF references on tracked_executor::aci (calibrated by the library per Boost version); that every other pending call holds one is proved'],
}
CHECKS['P16'] = {
    'units': net(['hb.cpp'], ([], ['-DST_ASIO_ALWAYS_SEND_HEARTBEAT'], ['-DST_ASIO_HEARTBEAT_INTERVAL=5']), entries='p16_.*'),
    'assumptions': LINK + ['interval * absence fits in an int'],
}
CHECKS['P18'] = {
    'units': net(['timer.cpp'], ([], ALIGN, DELAY5), entries='p18_.*'),
    'assumptions': LINK + ['fewer than 256 restarts of a timer while one expiry is on its way'],
}
