"""Writes properties.jsonl (one place to edit the wording)."""
import json
import os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
DS = 'neural_graph_composer/midi_dataset.py'
GB = 'neural_graph_composer/midi_graph_builder.py'
RD = 'neural_graph_composer/midi_reader.py'
SQ = 'neural_graph_composer/midi/midi_sequences.py'
SH = 'ngc_shared.py'
TF = 'neural_graph_composer/transforms.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': hook}})


prop('C01', 'An interrupted dataset build never leaves a wrong or unusable dataset',
     'If the process or the machine dies at any moment while a dataset is created or opened, the next open of the same folder '
     'succeeds and delivers exactly the graphs, note tables, labels and masks-shape that an undisturbed build of the same MIDI files gives. '
     'A dataset that had already been delivered before a process crash is delivered unchanged afterwards.',
     ['crash_points', 'histories', 'inputs', 'configurations'],
     'every operation at which a process is killed or power is lost, any number of times in a row, every set of unsynced writes lost or torn, every corpus and configuration',
     'the tests never interrupt a build: they only build once into a fresh folder',
     [DS], [('processed files are replaced only when complete', DS + ':_save_processed'),
            ('raw files appear only when complete', DS + ':download, _publish_raw'),
            ('marker files are replaced atomically, damaged ones are ignored', DS + ':_process')],
     [('processed folder', 'the collated graphs and tables on disk', DS + ':processed_file_names')],
     ['the dataset object: length, items, note and index tables', 'the folder after the restart'])
prop('C02', 'A failed build is reported, and the next attempt yields the full dataset',
     'When a disk, network or memory operation fails or the user interrupts while a dataset is created or opened, either the failure is '
     'raised to the caller or the dataset delivered is complete; a dataset with graphs missing or wrong is never reported as success. '
     'Once the failures stop, the next open of the same folder delivers the full dataset.',
     ['fault_sequences', 'histories', 'inputs', 'configurations'],
     'every sequence of failed, short or interrupted operations (I/O error, disk full, quota, no descriptors, no permission, read-only, no memory, interrupt, connection failures), in every process of a history',
     'no test makes an operation fail',
     [DS], [('errors propagate out of processing', DS + ':process, _process'),
            ('nothing partial stays under a final name', DS + ':_save_processed, download, _publish_raw')],
     [], ['exception or dataset content', 'the next open'])
prop('C03', 'Reopening a dataset is exact, read-only and independent per configuration',
     'Opening a complete dataset again, with the same files or from its folder alone, delivers the same graphs, labels, masks and tables as before, '
     'whatever the user did to the objects of an earlier open, and does not modify, fetch or rebuild the processed data. '
     'Datasets of different velocity, feature-size or tolerance settings in the same folder do not affect each other. '
     'Asking for a pre-filter or pre-transform whose textual form is not that of the stored data is answered by a warning and the stored data.',
     ['histories', 'configurations', 'fault_sequences'],
     'every history of opens, reads and mutations of delivered graphs by processes with different settings, with failed and killed opens in between',
     'tests open one configuration once or twice, in a fixed order, in one process',
     [DS], [('processed file names carry the configuration', DS + ':processed_file_names'),
            ('tables are saved next to the graphs', DS + ':process, load_processed'),
            ('items are copies', 'torch_geometric InMemoryDataset.get, ' + DS)],
     [], ['dataset content across processes', 'journal of disk operations'])
prop('C04', 'A dataset holds exactly the graphs of its MIDI files',
     'The per-instrument view holds one graph for every melodic instrument with more than one note of every file (also of files of the same name from different folders), in file order, and the whole-piece view one per file, '
     'each with the note sets, transition counts, velocities and classes that the score defines. '
     'The graphs do not depend on hash order, read sizes, the clock or the random stream, nor on the order in which a directory lists its files, which decides at most the order of the files of a folder that was given without a list. '
     'Its statistics and its number of classes are those of the graphs it holds.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'],
     'every corpus and configuration, under every hash seed, listing order, short-read pattern, clock and random stream',
     'tests look at shapes of a few fixed files under one environment',
     [DS, GB, SQ, RD], [('note grouping by onset', GB + ':compute_data, compute_tolerance'),
                        ('graph construction', GB + ':build, build_sequence, create_tensor, from_midi_networkx'),
                        ('collation', DS + ':process')],
     [], ['every field of every graph'])
prop('C05', 'Train, validation and test masks partition the nodes of every graph',
     'When masks are requested, every node of every graph of both views lies in exactly one of the train, validation and test masks, '
     'the masks have the requested sizes (rounded down, the rest is test), and the selection is determined by, and varies with, the random stream.',
     ['inputs', 'configurations', 'schedules'],
     'every random stream, graph size and pair of ratios with sum at most one',
     'tests check one random stream on one corpus',
     [DS], [('random node permutation', DS + ':_mask_per_instrument, _mask_entire_graph')], [], ['mask vectors of delivered graphs'])
prop('C06', 'Note tables stay one-to-one and stable over every build history',
     'Across any history of builds, failed builds and iterations of a graph builder, alone or beside other builders of the process, its tables between note sets, hashes and class indices stay one-to-one and consistent with each other, '
     'and the class of a note set never changes once it was assigned. Every class in an emitted graph stands for exactly the pitches of its node.',
     ['histories', 'inputs', 'fault_sequences'],
     'every sequence of builds with any corpus and settings, with allocation failures and rejected input in between',
     'tests build one sequence in a fresh builder; no test fails a build or uses two builders',
     [GB], [('tables of a builder', GB + ':build_sequence, hash_to_index, index_to_hash, hash_to_notes, notes_to_hash')],
     [('tables', 'hash <-> notes, hash <-> index', GB)], ['the tables and emitted graphs'])
prop('C07', 'Every built graph is emitted exactly once, in order',
     'Over any interleaving of builds and (complete, partial or abandoned) iterations, each graph that was built is handed out exactly once, in build order, '
     'and a build that fails leaves neither a partial graph nor a loss or repetition of others.',
     ['histories', 'fault_sequences', 'inputs'],
     'every interleaving of builds, iterator steps and failures',
     'tests iterate one freshly built sequence to its end',
     [GB], [('queue of built graphs', GB + ':graphs, __iter__, build')],
     [('pyg_data, sub_graphs', 'graphs not yet emitted', GB)], ['graphs delivered by the iteration'])
prop('C08', 'Writing a MIDI file is atomic, honours the overwrite flag and reads back',
     'After a write of a sequence collection is attempted, under any failure, crash or concurrent writer, the target holds either its previous content or a complete file, and without the overwrite request an existing file is never replaced. '
     'A write that reports success has the same notes, programs, tempi, time and key signatures when read back, and no partial file is visible to a concurrent reader.',
     ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
     'every crash point, failure and interleaving of writers and readers, for every collection of sequences',
     'tests write once, to a fresh path, without failures',
     [RD], [('temporary file and atomic replace', 'neural_graph_composer/midi/callbacks.py:write_midi, save_midi_callback; ' + RD + ':write, to_pretty_midi')], [], ['the target path', 'the result of reading it'])
prop('C10', 'Resuming from a checkpoint gives the newest complete state',
     'After any crash or failure during training, loading the last checkpoint of a model yields a state that was saved completely for that model type, never older than the last acknowledged save (one save older if power was lost), and the next epoch number, the weights and the optimizer state belong together. '
     'Model types that share a folder do not affect each other, and a failed save leaves the previous ones usable.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every crash point and failure in a history of training, saving, restarting and resuming with several model types',
     'no test covers checkpoints',
     [SH], [('atomic save', SH + ':_save_atomic'), ('choice of the latest', SH + ':load_checkpoint')],
     [('checkpoints folder', 'one file per saved epoch', SH)], ['state of the resumed model'])
prop('C11', 'Saved metrics survive restarts and stay with their kind and model',
     'The train, validation and test metrics read after a restart are exactly those of a completed save of that kind and model, never a mixture, a truncation or another kind, and never older than the last acknowledged save (one save older if power was lost).',
     ['crash_points', 'fault_sequences', 'histories'],
     'every crash point and failure in a history of updates, saves and restarts with several models',
     'no test covers metrics files',
     [SH], [('atomic save', SH + ':_save_atomic'), ('one file per kind', SH + ':update_metrics, update_val_metric, update_test_metric, load_checkpoint')], [], ['metrics after a restart'])
prop('C12', 'A MIDI file is read completely or rejected, however the bytes arrive',
     'Reading a MIDI file by path, from bytes or from a parsed object gives the same notes, programs, tempi, time and key signatures, which are those the file encodes, whatever sizes the reads return; '
     'a truncated file, a failing read or missing memory raises and never yields a shorter piece. No handle or temporary file is left behind.',
     ['inputs', 'fault_sequences'],
     'every file, read-size pattern, truncation point and failing operation',
     'tests read intact files from a healthy disk',
     [RD, 'neural_graph_composer/custom_pretty_midi.py'], [('single reader for all sources', RD + ':read, _read_pretty_midi, mido_to_pretty_midi')], [], ['sequences or exception', 'open handles'])
prop('C13', 'Tempo, time and key lookups follow the signatures added so far',
     'After any interleaving of additions and lookups by several clients, a lookup at a time returns the signature with the greatest start not after that time (the last one added among equals), and what one client adds is visible to the next lookup of any other.',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of additions and lookups at arbitrary times, in and out of order',
     'tests add one or two signatures in ascending order and look them up once',
     [SQ], [('ordered tables of signatures', SQ + ':add_tempo_signature, add_time_signatures, add_key_signatures, tempo_signature, time_signature, key_signature, initial_tempo')], [], ['lookup results'])
prop('C14', 'Concurrent opens of one dataset folder do not disturb each other',
     'When several processes create or open datasets in the same folder at the same time, each of them either gets its complete dataset or a failure that was its own, and afterwards the folder delivers complete datasets to everybody, also when one of them is killed or fails half-way.',
     ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every interleaving of the disk and network operations of the processes and every crash point',
     'tests run one process',
     [DS], [('complete files are renamed into place', DS + ':_save_processed, download, _publish_raw'), ('markers', DS + ':_process')], [], ['the dataset of each process', 'a later open'])
prop('C15', 'Random graph transforms and splits give well-formed graphs on every stream',
     'Whatever the random stream, dropping nodes or edges yields an induced sub-graph or edge subset of the requested size with features, classes, weights, labels and masks following their node or edge, adding degrees or graph ids changes nothing else, '
     'every access of a dataset applies its transform to the stored graph afresh and leaves the stored graph alone, and the train/test split of a dataset is a partition of the requested sizes.',
     ['schedules', 'inputs', 'configurations'],
     'every random stream, graph and probability',
     'no test covers the transforms or the split',
     [TF, SH, GB], [('index mapping after a drop', TF + ':RandomNodeDrop, RandomEdgeDrop; ' + SH + ':remove_nodes_and_edges'), ('split', SH + ':split')], [], ['the transformed graph'])
prop('C16', 'Raw files are byte-exact copies, present completely or not at all',
     'A MIDI file in the raw folder of a dataset, copied or downloaded, is at every moment byte-identical to its source, and sources of the same name from different folders are kept apart; a transfer that breaks off, ends early, is refused or is interrupted leaves no file under that name, and the next open completes the missing ones without fetching complete ones again.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every pattern of connection failures, early ends, segment sizes, disk failures and crashes in a history of opens',
     'tests copy local files without failures and never download',
     [DS], [('copies and downloads to a temporary name, a download is parsed before it is published', DS + ':download, _publish_raw')], [], ['raw folder', 'requests at the server'])
prop('C17', 'Independent objects used from several threads do not influence each other',
     'Reading, converting and writing MIDI files and querying separate sequence collections in several threads at once gives every thread the results it gets when running alone.',
     ['schedules', 'inputs'],
     'every interleaving of threads at source-line granularity',
     'tests are single-threaded',
     [RD, SQ, 'neural_graph_composer/midi/midi_sequence.py'], [('no shared mutable state between objects', RD + ', ' + SQ)], [], ['results per thread'])
NA = [
    ('C20', 'Interval tree queries equal a linear scan', 'After any sequence of insertions and removals the interval tree returns exactly the stored intervals that overlap a query.', ['neural_graph_composer/interval/intervaltree.py', 'neural_graph_composer/interval/node.py']),
    ('C21', 'Scale and interval arithmetic is consistent', 'Scales contain exactly the pitches their interval pattern defines, in every octave and for every root.', ['neural_graph_composer/midi/midi_scales.py', 'neural_graph_composer/midi/Interval.py']),
    ('C22', 'Note quantisation and symbol conversion are consistent', 'Quantising a note moves it to the nearest grid step and keeps its pitch and velocity, and names convert to pitches and back.', ['neural_graph_composer/midi/midi_note.py', 'neural_graph_composer/midi/midi_quantizer.py']),
    ('C23', 'Sequence slicing, truncation and concatenation keep notes', 'Slicing, truncating or stretching a sequence keeps exactly the notes of the requested span with their pitch and velocity.', ['neural_graph_composer/midi/midi_sequence.py']),
    ('C24', 'Sorted containers behave like sorted maps', 'The sorted dictionary and interval dictionary return the entry a sorted map would return for every key.', ['neural_graph_composer/midi/sorted_dict.py', 'neural_graph_composer/midi/sorted_interval_dict.py']),
    ('C25', 'Control changes and pitch bends are ordered and validated', 'Control-change and pitch-bend events compare by time and reject values outside the MIDI range.', ['neural_graph_composer/midi/midi_control_change.py', 'neural_graph_composer/midi/midi_pitch_bend.py']),
    ('C26', 'One-hot event encoding is invertible', 'Encoding an event to an index and decoding it gives the event back, for every event of the vocabulary.', ['neural_graph_composer/encoders/event_one_hot.py']),
]
NA_REASON = {p: f'{t} is a pure function of its input: no schedule, clock, I/O, randomness or fault can change the outcome, so deterministic simulation has nothing to decide; it would only be input generation.'
             for p, t in [('C20', 'An interval-tree query'), ('C21', 'Scale arithmetic'), ('C22', 'Quantisation and name conversion'), ('C23', 'Slicing a sequence'),
                          ('C24', 'A container lookup'), ('C25', 'Event comparison and validation'), ('C26', 'One-hot encoding')]}
for id, title, st, files in NA:
    prop(id, title, st, ['inputs'], 'every input', 'tests sample a handful of inputs', files, [('the module itself', files[0])])

if __name__ == '__main__':
    with open(OUT, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
