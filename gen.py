#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the statements live here; what is run lives in jobs.py)."""
import json
import os

from jobs import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
M, MP, MQ, MC = "src/modbus_master.c", "src/master_internall/modbus_master_PDU.c", "src/master_internall/modbus_queue.c", "src/master_internall/modbus_master_RTU.c"
S, SP, SD = "src/modbus_slave.c", "src/slave_internall/modbus_slave_PDU.c", "src/slave_internall/modbus_slave_data.c"
TYP = "src/common/modbus_type.h"
RTU, CRC, PC, BUF = "src/common/modbus_RTU.c", "src/common/modbus_crc.c", "src/common/modbus_PDU_common.c", "src/common/buf_rw.c"
SAMPLES = "The unit tests call one function at a time with mocked drivers and a handful of values"
L = []


def P(pid, title, statement, over, quant, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    L.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


TS = "explicit-state model checking of the real code against a reference monitor"
TD = "exhaustive enumeration of inputs on the real code against a reference model"
TI = "systematic exploration of interrupt interleavings (preemption-bounded) of the real code"
TA = "explicit-state exploration of the real code under AddressSanitizer and UBSan as oracle"
NS = "Every transition executes the library compiled from /repo/src; all static memory of the library is part of the state. Exhaustive within the alphabets of frames, requests, events and the queue, timeout and retry limits in evidence; trusts the reference monitor and the environment model in harness/."
ND = "Complete enumeration of the stated axes (addresses, quantities, byte positions, error patterns), each on a freshly prepared library, together with the state-space runs listed in evidence. Values off the axes are not covered."

# ------------------------------------------------------------------ master
P("M01", "Every request is transmitted as exactly the Modbus RTU frame it stands for",
  "Whatever accepted request the master sends, the bytes handed to the serial driver are exactly the Modbus RTU frame of that request: slave address, function code, address, quantity or value, for multiple writes byte count and packed data, and a correct CRC-16, with the right length and nothing more. This holds for every function, slave address, data address and permitted quantity, and for every retransmission.",
  ["inputs", "histories"], "all addresses 0..65535, all permitted quantities, all slave addresses 0..255, each of the eight request functions, and any earlier traffic in the same buffers",
  SAMPLES + ", so shared buffers that keep bytes of earlier messages and unusual quantities (partial bytes, maximum sizes) are not reached.",
  [M, MP, RTU, CRC, PC, BUF], [("modbus_master_*_req builders", MP), ("modbus_RTU_send", RTU), ("calculate_CRC", CRC)], ["driver send(): buffer and length"], TD, ND)
P("M02", "A request with an impossible quantity is refused and has no effect",
  "A read or multiple-write request whose quantity is zero or exceeds the limit of its function code (2000 coils or inputs, 125 registers for reading; 1968 coils, 123 registers for writing) is refused with an error return. A refused request transmits nothing, triggers no callback or report and uses up no queue capacity, however often it is repeated.",
  ["inputs", "histories"], "all 16-bit quantities of every function, and all histories mixing refused and accepted requests",
  "The tests check return values of single calls; the loss of capacity only shows after a sequence of refused requests, with the queue's contents in between.",
  [M, MP, MQ], [("generate_request", M), ("quantity checks in the request builders", MP), ("free and send queue", MQ)], ["return value of modbus_master_read_*/write_*", "driver send()", "acceptance of later requests"], TS, NS)
P("M03", "The master holds up to the configured number of requests, in FIFO order",
  "As many valid requests as the configured queue size can be outstanding at the same time: a request is accepted exactly while fewer are outstanding, and refused otherwise without disturbing those already accepted. Accepted requests are transmitted in the order in which they were accepted, each with its own content.",
  ["histories"], "all interleavings of requests, refused requests, completions of every kind, and requests made from within callbacks",
  "Queue tests push and pop a bare queue; capacity leaks and order only show over long histories through the public interface.",
  [M, MQ], [("generate_request", M), ("modbus_queue_push/pop", MQ), ("modbus_master_msg_process_end", M)], ["return values", "order of driver send() calls"], TS, NS)
P("M04", "Every accepted request gets exactly one outcome, and only from the manager",
  "Every accepted request ends in exactly one of: complete data delivered, write confirmed, exception reported, communication error reported, or timeout reported. No outcome appears without a request, none appears twice, none is mixed with another, and all are delivered from within the call of the manager function, never from an interrupt.",
  ["histories", "fault_sequences"], "all sequences of responses, damaged responses, frame errors, silence, timer ticks and manager calls, up to closure of the state space",
  "Tests drive the state machine through chosen paths; the guarantee is about every order of events, including those that coincide.",
  [M, MP], [("update_modbus_master_manager and its state handlers", M), ("modbus_master_read_slave_resp", MP)], ["application data callbacks", "exception, error and timeout reports"], TS, NS)
P("M05", "Read data reach the application exactly as the slave sent them",
  "When a read request is answered by a complete intact matching response, the application receives, through the callback of that table, each requested element exactly once with the slave address, its own data address and the very value in the response, and nothing beyond the requested elements. This holds for every start address, quantity and content.",
  ["inputs", "histories"], "all start addresses and quantities of the four read functions, and value patterns over every element position",
  SAMPLES + "; positions within bytes, maximum sizes and addresses near 65535 are not swept, nor leftovers of earlier responses.",
  [M, MP, BUF], [("update_master_*_from_modbus_msg", MP)], ["modbus_master_coil_read, _disin_read, _inreg_read, _hreg_read callbacks"], TD, ND)
P("M06", "Only a complete, intact response that answers the request is delivered",
  "Nothing is delivered, confirmed or reported as an exception unless a frame was received that comes from the addressed slave, has a correct CRC, carries the function code of the outstanding request (or its exception code), and has the length and byte count, or the echoed address and value or quantity, that the request demands. Damaged, truncated, over-long, foreign or otherwise mismatching frames never produce data, confirmations or exceptions, and never alter what a later good response delivers.",
  ["inputs", "fault_sequences"], "all 255 wrong function codes, all byte counts and lengths, all wrong echoes, all CRC values, all single, double and burst errors of sample frames, and all sequences of such frames with good ones",
  "Tests damage a frame in one or two chosen ways; the space of damaged frames and of sequences leaving stale bytes in the buffer is not explored.",
  [M, MP, RTU], [("check_resp_correctness", MP), ("modbus_RTU_recv", RTU), ("reception state handlers", M)], ["application callbacks and reports"], TD, ND)
P("M07", "Retries are bounded, identical, and made only after a bad response",
  "A request is transmitted again only after something damaged (bad CRC or character error), or an intact frame of the addressed slave that does not answer the request, was received since its last transmission; never after a good response, an exception, silence, or a frame of another station. Each retransmission is byte for byte the same frame, at most the configured number of repetitions is made, all of them are used before a communication error is reported, and the budget is the same for every request.",
  ["fault_sequences", "histories"], "all sequences of damaged, good, foreign and missing responses over several successive requests, with 0 to 3 configured repetitions",
  "Tests set the internal counter and look one step ahead; what remains of one request's errors in the next is not explored.",
  [M], [("modbus_master_RTU_CRC_error_state_handling, modbus_master_frame_error_state_handling, modbus_master_msg_process_end", M)], ["driver send()", "communication error reports"], TS, NS)
P("M08", "A missing answer is reported as timeout after the configured time, not before",
  "If the line stays silent after a request was transmitted completely, a timeout is reported once the configured number of milliseconds has elapsed since the end of the transmission (to within one tick of the millisecond timer), not earlier and without needing any further event; no retransmission follows it. A request that was answered in time is never reported as timed out, and the time spent on one request or on queueing never shortens that of another.",
  ["histories", "schedules"], "all positions of timer ticks relative to the transmission, responses and manager calls",
  "Tests step the timer with a mocked state machine; the relation between ticks, the end of transmission and late manager calls is not explored.",
  [M], [("update_modbus_master_timout_timer", M), ("modbus_master_resp_timeout_handle", M), ("enable/disable of the response timer", M)], ["timeout report", "driver send()"], TS, NS)
P("M09", "The master never gets stuck",
  "From every reachable situation, if the line falls silent and the manager and timer functions keep being called, every outstanding request gets its outcome within bounded time. Afterwards the full queue capacity is available and a new request that is answered properly succeeds.",
  ["histories", "fault_sequences"], "every reachable state of the explored configurations, including noise, errors, re-initialisation and late polling",
  "Liveness from every reachable state cannot be sampled; the existing tests never run the machine from damaged states to completion.",
  [M, MQ], [("update_modbus_master_manager and its state handlers", M), ("interrupt callbacks", M)], ["outcomes and acceptance of later requests"], TS, NS)
P("M10", "Failure reports describe the request that failed",
  "Every timeout, communication error and exception report carries the slave address, function code, data address and quantity (1 for single writes) of the request that failed and the right kind of error, whatever was received, damaged or left in the buffers meanwhile.",
  ["inputs", "fault_sequences"], "all functions, all mixtures of failed attempts, all exception codes",
  "Tests compare reports after one fixed failure; reports built after several damaged responses or from overwritten buffers are not explored.",
  [M, MP], [("fill_error_report_from_req", M), ("modbus_master_get_req_data_qty", MP)], ["modbus_master_communication_error report", "exception report", "timeout report"], TS, NS)
P("M11", "Every exception response is reported once, with its code",
  "If the slave answers with an exception response to the outstanding request, that exception code, whatever its value, is reported exactly once through the exception callback together with the request, and the request ends there: nothing is delivered or confirmed and nothing retransmitted. An exception is never reported without such a response.",
  ["inputs", "histories"], "all exception codes 0..255 for all functions, in all contexts of the explored state space",
  SAMPLES + " of the defined codes.",
  [MP, M], [("modbus_response_contain_exception_code", MP), ("exception report", M)], ["modbus_master_slave_exception callback"], TD, ND)
P("M12", "Interrupts may strike the master at any instant without breaking a guarantee",
  "All guarantees about the master (frames, order, one outcome, delivered data, retries, timeouts, reports, progress) also hold if the interrupts of driver and timer (transmission complete, received characters, 1.5 and 3.5 character expiry, frame error, timer tick) strike between any two memory accesses of the manager or of a request call.",
  ["schedules"], "all placements of one (quick) or two (thorough) interrupt bursts at every memory access of every call, from every reachable state of the configuration",
  "Single-threaded unit tests never interrupt the code under test.",
  [M, MQ], [("shared flags between interrupt callbacks and manager", M)], ["as for the other master properties"], TI, "Interrupt handlers run to completion at each memory access of the library's code (instrumented by the compiler's thread sanitizer hooks); sequentially consistent single core. Preemption bound 1 quick, 2 thorough. Trusts the instrumentation to expose all accesses of static data.")
P("M13", "No input makes the master read or write outside its memory",
  "Whatever requests are made and whatever arrives on the line, of any length, content or timing, the master accesses no memory outside its objects and executes no undefined operation.",
  ["inputs", "fault_sequences"], "all frames of all lengths up to the buffer size on the enumerated axes, all exception and function codes, and the explored sequences of frames",
  "Tests run without sanitizers on well-formed input.",
  [M, MP, MQ, RTU, BUF, PC], [("length checks", MP), ("buffer sizes", "src/common/modbus_type.h")], ["sanitizer reports"], TA, "AddressSanitizer/UBSan detect accesses outside objects, not inside the wrong field of the same structure; 64-bit int build.")
P("M14", "The master transmits only when the bus is free for it",
  "The master never starts a transmission while its previous one is still running or a response to it is still awaited, and only for an accepted request that has no outcome yet. Transmissions are started only from the manager function.",
  ["schedules", "histories"], "all event sequences of the explored configurations, including noise and late polling",
  "The relation of one call of the driver to all earlier events cannot be sampled.",
  [M], [("modbus_master_idle_state_handling, modbus_master_transmitting_state_handling", M)], ["driver send()"], TS, NS)
P("M15", "Initialising the master again gives a clean master",
  "After the master is initialised again at any instant, also from the callback that concludes a request, it behaves as after the first initialisation: earlier requests are forgotten and never transmitted, answered or reported, the full queue capacity is available, and all other guarantees hold, whatever was received or under way before.",
  ["histories"], "initialisation in every reachable state of the explored configurations",
  "Tests initialise before each test from static zero state only.",
  [M, MQ], [("modbus_master_init", M)], ["everything observable"], TS, NS)
P("M16", "Noise and other stations' traffic do not harm the master",
  "Frames of other stations, stray bytes, character errors and damaged frames, before, between and after the responses, never cause data, confirmations or reports of their own, never change what a good response delivers, and never block later requests. A good response that follows ignored traffic within the timeout is still accepted.",
  ["fault_sequences"], "all sequences of such traffic from the alphabets, at any time including when no response is awaited",
  "Tests do not put foreign traffic between the steps of an exchange.",
  [M, MP, RTU], [("reception state handlers", M), ("modbus_RTU_recv", RTU)], ["everything observable"], TS, NS)
P("M17", "Write requests are confirmed exactly as answered",
  "When a write request is answered by the matching echo of the slave, exactly one confirmation with the slave address, data address and quantity of the request is given through the callback of that table (coils or holding registers). No write confirmation is given otherwise.",
  ["inputs", "histories"], "all addresses, quantities and slave addresses of the four write functions, all wrong echoes of a field, and all explored sequences",
  SAMPLES + ".",
  [MP, M], [("report_write_operation_confirmation", MP), ("check_resp_correctness", MP)], ["modbus_master_coil_write, modbus_master_hreg_write callbacks"], TD, ND)
# ------------------------------------------------------------------ slave
P("S01", "The slave answers every valid read with exactly its current data",
  "Every valid read request (coils, discrete inputs, holding registers, input registers) within the configured tables is answered by exactly the Modbus RTU response with the application's current values of the requested elements: packed bits with zero padding, registers high byte first, right byte count, length and CRC.",
  ["inputs", "histories"], "all addresses, quantities and value patterns for table sizes from 1 to 65535, all data changes between requests",
  SAMPLES + " on one table size.",
  [SP, SD, S, PC, BUF, RTU], [("read services", SP), ("get_coil_din_state, get_register_state", SD)], ["driver send(): buffer and length"], TD, ND)
P("S02", "Every valid write changes exactly the addressed data and is echoed",
  "Every valid write request within the configured tables sets exactly the addressed coils or holding registers of the application to the requested values, leaves every other element of every table unchanged, and is answered by exactly the Modbus RTU echo response. The response is not altered while it is transmitted.",
  ["inputs", "histories"], "all addresses, quantities and value patterns of the four write functions for table sizes from 1 to 65535",
  SAMPLES + "; that nothing else changes is not checked.",
  [SP, SD, S, PC, RTU], [("write services", SP), ("set_coil_state, set_register_value", SD)], ["application variables", "driver send()"], TD, ND)
P("S03", "An invalid request gets the specified exception and changes nothing",
  "A request addressed to the slave with an unsupported function code is answered by exception 1, with a range beyond the table by exception 2, with a quantity of zero or beyond the limit, a byte count that does not match the quantity, or a coil value other than 0xFF00 and 0x0000 by exception 3, checked in the order function, value or quantity, address range. No application data change.",
  ["inputs"], "all 256 function codes, all quantities, all 65536 coil values, all byte counts, all ranges around the table ends",
  SAMPLES + ".",
  [SP, S], [("check_read_req_data_correcntess, check_write_req_data_correctness, byte count checks", SP), ("set_exception_code_resp", SP)], ["driver send()", "application variables"], TD, ND)
P("S04", "Elements without an application variable give a device failure",
  "A request that touches an element for which the application registered no variable is answered by exception 4, and a write does not touch any variable but those of registered elements of its own range. Registering another variable redirects exactly that element from then on, registering for one table never affects another, and initialisation keeps the registrations.",
  ["configurations", "histories"], "all subsets of registered elements of small tables and all requests on them, and all sequences of registration and requests in the explored alphabet",
  "Tests register chosen elements; combinations of gaps and ranges are not swept.",
  [SD, SP, S], [("register_app_data_to_modbus_*", S), ("NULL checks", SD)], ["driver send()", "application variables"], TD, ND)
P("S05", "Requests not addressed to the slave, or damaged, have no effect",
  "A frame with another slave address, a wrong CRC, or in which a character error was detected is never answered and never changes application data.",
  ["inputs", "fault_sequences"], "all 255 other addresses, all CRC values, all burst and up to triple bit errors of sample frames, and all explored sequences with valid requests",
  "Tests use one foreign address and one wrong CRC.",
  [S, RTU], [("modbus_RTU_recv", RTU), ("modbus_frame_error_callback, handle_modbus_slave_idle_state", S)], ["driver send()", "application variables"], TD, ND)
P("S06", "A truncated request is never completed with bytes of an earlier one",
  "A frame that is shorter than its function code requires is neither answered nor executed, whatever earlier requests and responses left in the buffer, and whatever its checksum looks like; and a write is never executed with values that its frame does not contain.",
  ["inputs", "histories"], "all lengths of sample requests with correct CRC after all explored histories; all quantities with all byte counts",
  "Tests never send a short frame after a long one.",
  [S, RTU, SP], [("get_min_request_len", S), ("modbus_RTU_recv", RTU)], ["driver send()", "application variables"], TS, NS)
P("S07", "After any disturbance the slave answers the next valid request",
  "Whatever was received before (damaged, truncated, foreign or over-long frames, noise, character errors, repeated events), the next valid request that arrives after an idle line is answered correctly and executed exactly once.",
  ["fault_sequences", "histories"], "every reachable state of the explored configurations is followed by valid requests",
  "Recovery from every reachable state cannot be sampled.",
  [S, RTU], [("state machine of check_modbus_request", S), ("interrupt callbacks", S)], ["driver send()", "application variables"], TS, NS)
P("S08", "The slave replies once, only after the end of the request, one at a time",
  "The slave starts a transmission only from its polling function, only after the 3.5 character silence following a valid request, exactly once per request, never while a previous response is being transmitted, and never without a request; a running response is not altered.",
  ["schedules", "histories"], "all orders of received bytes, timer events, completion of the transmission and polling calls",
  "The relation between driver calls and all earlier events cannot be sampled.",
  [S], [("handle_modbus_slave_*_state", S), ("modbus_T_3_5_char_expired_callback", S)], ["driver send() and the line"], TS, NS)
P("S09", "Interrupts may strike the slave at any instant without breaking a guarantee",
  "All guarantees about the slave (answers, data changes, ignored frames, recovery, timing of the response) also hold if the interrupts of the driver (transmission complete, received characters, 1.5 and 3.5 character expiry, frame error) strike between any two memory accesses of the polling function.",
  ["schedules"], "all placements of one (quick: one, in some runs two) or two (thorough) interrupt bursts at every memory access of every call, from every reachable state of the configuration",
  "Single-threaded unit tests never interrupt the code under test.",
  [S], [("shared flags between interrupt callbacks and check_modbus_request", S)], ["as for the other slave properties"], TI, "Interrupt handlers run to completion at each memory access of the library's code (instrumented by the compiler's thread sanitizer hooks); sequentially consistent single core. Preemption bound 1 quick, 2 thorough.")
P("S10", "No input makes the slave read or write outside its memory",
  "Whatever arrives on the line, of any length, content or timing, the slave accesses no memory outside its objects and tables and executes no undefined operation.",
  ["inputs", "fault_sequences"], "all lengths, function codes, byte counts, address and quantity combinations on the enumerated axes for several table sizes, and the explored sequences",
  "Tests run without sanitizers on well-formed input.",
  [S, SP, SD, RTU, PC, BUF], [("range checks", SP), ("get_min_request_len", S)], ["sanitizer reports"], TA, "AddressSanitizer/UBSan detect accesses outside objects; 64-bit int build.")
P("S11", "Initialising the slave again gives a clean slave",
  "After the slave is initialised again at any instant, it behaves as after the first initialisation with the same registrations: nothing received or under way before is answered or executed, and every later valid request is answered.",
  ["histories"], "initialisation in every reachable state of the explored configurations",
  "Tests initialise from static zero state only.",
  [S], [("modbus_slave_init", S)], ["driver send()", "application variables"], TS, NS)
P("S12", "Every element up to the end of every table is reachable, and nothing beyond",
  "For any configured table size, the last element can be read and written by every function that covers it, every range that ends at it is served, and every range that extends past it by one or more, including past 65535, is refused with exception 2 without any change.",
  ["configurations", "inputs"], "table sizes 1, 2, 7, 8, 9, 13, 16, 17, 100, 65535 (thorough also 2000) and mixed sizes, all addresses and quantities around and beyond the end",
  "Tests use one table size and sums that do not overflow.",
  [SP, SD], [("check_read_req_data_correcntess, check_write_req_data_correctness", SP)], ["driver send()", "application variables"], TD, ND)
# ------------------------------------------------------------------ both roles
P("C01", "Every checksum is the CRC-16 of Modbus, for every message of every length",
  "The checksum computed for a sequence of bytes, whatever its contents and length (up to 65535 bytes), is CRC-16/MODBUS (polynomial 0x8005 reflected, initial value 0xFFFF) and computing it changes nothing. Both roles end every frame they transmit with it, low byte first, and both treat a received frame as intact exactly when it ends with it.",
  ["inputs"], "all messages of up to three bytes (every register value meets every byte; thorough: four), all lengths 0..600 and selected ones to 65535, every byte value at every position of messages up to 256 bytes, all 65536 values of the CRC field of received frames, and all single, double and burst errors",
  "The tests compare the checksum of a handful of messages; a wrong entry of the look-up table or a length dependent error passes them.",
  [CRC, RTU], [("calculate_CRC", CRC), ("modbus_RTU_send, modbus_RTU_recv", RTU)], ["return value of calculate_CRC", "driver send()", "reaction to received frames"], TD,
  "Complete for single steps of the computation; messages longer than three bytes on the stated axes.")
P("C02", "Master and slave on one platform do not disturb each other",
  "A program may run the master and the slave role at the same time, each with its own driver: every guarantee of either role then holds unchanged, whatever the other role does or receives, in whatever order both are initialised, polled and interrupted. Nothing received by one role changes what the other transmits, delivers, reports or stores.",
  ["schedules", "histories"], "all interleavings of the events of both roles of the explored alphabets, and one interrupt burst of either role at every memory access of both main program functions",
  "The tests link each role alone; shared state between them would only show when both are in the middle of an exchange.",
  [M, S, RTU, PC, BUF], [("static state of both roles", M), ("shared helpers", RTU)], ["everything observable of either role"], TS, NS)
P("C03", "End to end: what the master reports is what happened in the slave",
  "With the library's master and slave on one line, a write that the master reports as confirmed is in the slave's data, values the master delivers are those the slave's application had when the request was executed, and each outcome reported agrees with what the slave did. Over an undisturbed line every valid request ends in success (or in the exception the specification demands), and after any disturbance the pair works again.",
  ["histories", "fault_sequences", "schedules"], "all sequences of requests of the alphabet, of losses, bit errors, truncations, and character errors in either direction, of changes of the slave's data by its application, and of polling on both sides",
  "The tests check each role against frames written by hand; that both agree on every frame, and how they recover together, is never executed.",
  [M, MP, S, SP, SD, RTU], [("update_modbus_master_manager", M), ("check_modbus_request", S)], ["application callbacks of the master", "application variables of the slave", "frames on the line"], TS,
  NS + " Answers that arrive after the master's timeout are outside the fault model.")
P("C04", "Initialisation starts each role's own driver with the settings asked for",
  "Initialising a role initialises its own driver, and no other, once with exactly the baud rate and parity given, subscribes all four driver callbacks, and for the slave starts reception into an empty buffer. It transmits and reports nothing. This holds for every baud rate and parity, in either order of the roles and when repeated. Initialised for any other mode than RTU the master refuses every request and the slave leaves its driver alone; initialised for RTU, then or later, the master has room for exactly the number of requests configured.",
  ["configurations"], "baud rates 0..299999, all powers of two and neighbours and all standard rates up to 32 bits, all parities, all slave addresses, both orders, first and repeated initialisation, all sequences of four initialisations of either role for RTU or the unknown mode",
  "The tests initialise with one or two settings and one role at a time.",
  [M, S], [("modbus_master_init", M), ("modbus_slave_init", S)], ["driver init(), subscribe and enable functions"], TD, "Complete on the stated settings.")
P("C05", "The guarantees do not depend on the compiler, its optimisations or layouts",
  "Built with the compiler settings of the example platforms (smallest possible enumerations, unsigned char and bit fields, optimisation for size, and for AVR packed structures), optimised as one unit, or with another compiler, the library keeps all guarantees: in particular register values of all 16 bits, exception codes, function codes and error kinds reach the other side unchanged.",
  ["configurations", "inputs"], "the enumerated axes of values, quantities, functions, exceptions and lengths, and small state spaces of both roles, for each build",
  "The tests run with one compiler and one set of options on the host, where enumerations have the size of int and structures are padded.",
  [TYP, SD, MP, SP], [("modbus_ret_t and MAX_RET_VAL", TYP), ("get_register_state", SD)], ["everything observable of either role"], TD, "Host instruction set; the width of int is the subject of C07.")
P("C06", "Two boards with the example drivers: only right outcomes, and recovery",
  "The library with the drivers of its examples, on two boards joined by one line: over an undisturbed line every accepted request ends in the outcome the specification demands, with the slave's values. Characters that get lost or damaged while a frame is transmitted, and stray characters between exchanges, never make the master deliver a value or confirm a write that is not the slave's, nor the slave execute anything that was not requested; and once the line is undisturbed again, later requests succeed. The drivers program the baud rate, parity and stop bits asked for (characters of 11 bits), a receiver time-out of 1.5 and a timer of 3.5 characters, also when initialised again with other settings.",
  ["histories", "fault_sequences", "schedules"], "all sequences of requests of the alphabet, of losses and inversions at every character of every frame, of stray characters, of calls of both main programs (at least one per one to three half characters) and of timer ticks, on the modelled USART and timer of both boards; one interrupt burst at every memory access of either main program; all sequences of the usual line settings",
  "The tests replace the drivers by stubs whose interrupts happen at a few chosen points between calls; the example drivers are never executed.",
  [M, MP, S, SP, RTU, BUF], [("update_modbus_master_manager", M), ("check_modbus_request", S), ("driver of the master example", "examples/STM32G070RB_MODBUS_MASTER"), ("driver of the slave example", "examples/STM32G070RB_MODBUS_SLAVE")], ["application callbacks of the master", "application variables of the slave", "characters on the line", "registers of the peripherals"], TS,
  NS + " The hardware is a model written from the reference manual; interrupts are served within half a character; the response timeout does not expire while an answer is still possible. Four defects of the example drivers are known findings; explorations in which they would strike run on copies of the drivers in which they are repaired.")
P("C07", "The guarantees hold on processors whose int has 16 bits",
  "Compiled for a processor whose int has 16 bits (AVR, MSP430), where sums and products of 16 bit values overflow unless the source widens them, the library keeps all guarantees of both roles: in particular ranges that reach past address 65535 are refused with exception 2, and no read or write leaves the tables.",
  ["configurations", "inputs"], "the enumerated axes of addresses, quantities, values, functions, exceptions, lengths and long lives of both roles, initialisation, checksums, and small state spaces of each role, both together and end to end, with tables of 1, 8, 100 and 2000 elements",
  "The tests run on the host, where int has 32 bits and no such sum overflows.",
  [SP, SD, MP, M, S, PC, BUF], [("check_read_req_data_correcntess", SP), ("arithmetic on addresses and quantities", SP)], ["everything observable of either role"], TD,
  "The code generated for the 16 bit processor is executed with the memory layout of the host: integer arithmetic is that of the processor, pointers are not.")
P("C08", "An interrupt between the bytes of a variable does no harm",
  "On a processor of 8 bits, where a variable of several bytes is read and written byte by byte, in either order, and an interrupt (received characters, end of a transmission, silence, tick of the timer) may come between two bytes, the library keeps the guarantees of both roles: in particular a tick while the response timeout is being started or stopped makes no timeout come early or stay out.",
  ["schedules", "configurations"], "the reachable states of small configurations of either role, of both together and end to end, with one burst of interrupts before every access to every byte of memory of every call (two bursts for the slave), the bytes of a variable in ascending or descending order; response timeouts of 2, 256, 300, 600, 1000 and 70000 ticks",
  "The tests call the interrupt handlers between calls only, never between two bytes of a variable.",
  [M, S, MQ, RTU, BUF], [("update_modbus_master_timout_timer", M), ("modbus_master_enable_resp_timeout_timer", M), ("modbus_master_disable_resp_timeout_timer", M)], ["everything observable of either role"], TS,
  "Interrupts are not nested. With timeouts of more than 2 ticks the timer advances in large steps between calls, and at most one tick per transmission falls between two accesses. Pointers and sums are those of the 16 bit processor of C07.")
P("C09", "An interrupt between any two machine instructions does no harm",
  "Optimised by the compiler (the whole library as one unit at -O3, each file at -Os, another compiler at -O2), where values are kept in registers, accesses are merged, moved or left out and functions are inlined, the library keeps the guarantees of both roles when interrupts (received characters, end of a transmission, silence, tick of the timer) come between any two machine instructions of a call of the main program.",
  ["schedules", "configurations"], "the reachable states of small configurations of either role and end to end, with one burst of interrupts before every machine instruction that accesses memory or calls, of every call, executed on the processor from each state; three optimised builds",
  "The tests call the interrupt handlers between calls only; an access that the compiler leaves out or moves across another is invisible to them and to checks that instrument the source.",
  [M, S, MQ, RTU, BUF], [("modbus_master_flags, modbus_slave_rtu_msg flags", M), ("update_modbus_master_manager", M), ("check_modbus_request", S)], ["everything observable of either role"], TS,
  "Host instruction set (x86-64). Interrupts are not nested; one burst per call. Instructions that only touch registers or the stack are no separate points: an interrupt before them is indistinguishable from one before the next point.")
NOT = []


def main():
    ids = set()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in L:
            assert p["id"] not in ids
            ids.add(p["id"])
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in L if p["id"] in PROPS]
    assert set(PROPS) <= ids, set(PROPS) - ids
    assert ids - set(PROPS) == {n["property"] for n in NOT}, ids - set(PROPS)
    json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": NOT,
               "notes": "No hooks in /repo: interrupts are injected through compiler instrumentation of an unmodified copy of the sources. Known findings and repaired defects: known_findings.txt."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
