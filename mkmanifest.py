#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run after changing the list of checks)."""
import json
TECH = {'S': 'runtime monitoring: the real slave is driven through a simulated driver with generated frames, faults and schedules; an online checker compares every response and the application memory with a reference model',
        'M': 'runtime monitoring: the real master is driven through a simulated driver with generated requests, responses, faults and schedules; an online checker of the trace specification judges every transmission, return value and callback'}
SPEC = {'S07': 'sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer build of the library under hostile, malformed and valid traffic, and valgrind memcheck for undefined values',
        'M12': 'sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer build of the library under hostile traffic, refused requests and exactly sized application arrays, and valgrind memcheck for undefined values',
        'X01': 'runtime monitoring: systematic bit, burst and character damage of frames delivered to the real code; an oracle requires that none is acted on',
        'X02': 'runtime monitoring: the real master and slave on a simulated character-level line with fault injection; an end-to-end oracle judges reports, memory and recovery',
        'X03': 'runtime monitoring: both roles in one process, switched as coroutines between and inside the polls (compiler-inserted hooks at memory accesses), each with its complete online checker',
        'X04': 'runtime monitoring: driver events injected at every instrumented memory access and branch inside the polls and request functions, in an unoptimised and three optimised builds; online checkers judge each execution',
        'X06': 'runtime monitoring: the real library with the repository\'s real STM32 drivers on simulated peripherals and bus; online monitors at the driver interface, the wire, the application memory and the callbacks judge every execution',
        'X07': 'runtime monitoring: monitors of the running library function judge every driver call, callback and change of application memory in sessions of all kinds, with events between and (compiler-inserted hooks) inside the library functions',
        'X08': 'runtime monitoring: a monitor at every memory access and branch of the library (compiler-inserted hooks) compares all application data with what they may hold, while simulated interrupts change them',
        'X09': 'runtime monitoring: the depth of the stack is measured at every branch and memory access (compiler-inserted hooks) of the library in sessions of all kinds, allocation functions are replaced by reporting stand-ins',
        'X05': 'runtime monitoring: the workloads and checkers of the other properties on the library compiled with further configurations, extremes included'}
NOTE = 'Exploration: the property was checked by the oracle on every execution generated (numbers in the evidence file), not proved for all. Trusted: the harness (simulated driver, reference model, checkers), the compilers and sanitizers, and the driver contract written in harness/assumptions.json.'
checks = []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    c = f'python3 check.py {p}'
    checks.append(dict(property=p, quick_cmd=c, thorough_cmd=c + ' --tier thorough', technique=SPEC.get(p, TECH.get(p[0])), level='exploration', level_note=NOTE))
json.dump(dict(version=1, setup_cmd='python3 check.py all --build-only', checks=checks, not_applicable=[],
               notes='No hooks in /repo: the drivers, callbacks and configuration are the library\'s public seams, instrumentation is inserted by the compiler. known-findings.txt lists the repaired defects.'), open('MANIFEST.json', 'w'), indent=1)
