From 1acdd9f363c142003101d8fa29c3a8cca9304af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 01/34] fix: order note groups by time, not by the hash of the
 time

compute_data keyed the groups by hash(start time) and build_sequence sorted
those keys; hash(0.5) > hash(1.0), so fractional times sorted after whole
seconds and the transitions of the graph were wrong.
---
 neural_graph_composer/midi_graph_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..37d1044 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -734,7 +734,9 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
+            # keyed by the time itself: the keys are sorted to order the groups,
+            # and hash(float) does not preserve the order of the times.
+            time_hash = adjusted_time_hash
             if time_hash not in data:
                 data[time_hash] = []
 
-- 
2.43.0


From 4446373f41f093df930b45f191ed8ae3c4a13dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/34] fix: graphs() emits every built graph, not only the
 first one

The reset of the internal lists was inside the loop that iterates them, so
the first step of the iterator dropped every graph but the one it emitted:
a file with two instruments gave one graph. A graph now leaves the lists
when it is emitted, as the doc of sub_graphs and pyg_data says.
---
 neural_graph_composer/midi_graph_builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 37d1044..c925bb7 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1131,7 +1131,10 @@ class MidiGraphBuilder:
             for node_hash in self._hash_to_notes:
                 assert node_hash in self.hash_to_index
 
-        for g in self._pyg_data or []:
+        # a graph leaves the internal lists when it is emitted: each built graph
+        # is emitted exactly once, however many iterators consume them.
+        while self._pyg_data:
+            g = self._pyg_data[0]
             node_hash = [self._hash_to_index[node_hash] for node_hash in g.node_hash]
             target_indices = [self._hash_to_index[hash_val] for hash_val in g.node_hash]
 
@@ -1159,10 +1162,7 @@ class MidiGraphBuilder:
             if skip_label:
                 g.label = None
 
+            del self._pyg_data[:1]
+            del self._sub_graphs[:1]
             yield g
             del g
-
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
-- 
2.43.0


From 649ffd2ee6018787d37757017cbe051d9576ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 03/34] fix: graphs(is_sanity_check=True) no longer calls
 .item() on an int label

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index c925bb7..f257d5b 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1143,7 +1143,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From 9097e4db3d80da5b281f3a077fbc2d679b1abe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 04/34] fix: save the whole-piece graphs in the whole-piece
 processed file

process() collated the per-instrument graphs once and saved them in both
processed files, so per_instrument_graph=False loaded per-instrument graphs.
---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..2a29872 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -578,6 +578,7 @@ class MidiDataset(InMemoryDataset):
         # self._graph_builder = None
 
         self._mask_entire_graph()
+        _data, _slices = self.collate(self.__data_list)
         _hash_to_notes = self.graph_builder.hash_to_notes
         _notes_to_hash = self.graph_builder.notes_to_hash
         _hash_to_index = self.graph_builder.hash_to_index
-- 
2.43.0


From 60fe850635b1dda07de83b52c0763cd2f722824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 05/34] fix: a MIDI file without a melodic track does not abort
 the dataset build

next() on the empty iterator raised StopIteration (whole-piece pass), and
graphs() raised ValueError when the first file had no graph.
---
 neural_graph_composer/midi_dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 2a29872..259cb8f 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -477,6 +477,11 @@ class MidiDataset(InMemoryDataset):
                     is_per_instrument=True
                 )
 
+                # a file without a melodic track (drums only) has no graph.
+                if not self._graph_builder.pyg_data:
+                    print(f"No graph in file {raw_path}")
+                    continue
+
                 # graph_builder output iterator, is_sanity_check if we want to do sanity
                 # check during this phase.
                 for midi_data in self._graph_builder.graphs(
@@ -629,11 +634,12 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
-                graphs = self._graph_builder.graphs()
-                if not graphs:
-                    raise ValueError("No sub graphs found in graph builder.")
+                # a file without a melodic track (drums only) has no graph.
+                if not self._graph_builder.pyg_data:
+                    print(f"No graph in file {raw_path}")
+                    continue
 
-                midi_data = next(graphs)
+                midi_data = next(self._graph_builder.graphs())
 
                 self.all_classes.update(torch.unique(midi_data.y).tolist())
                 if self.pre_filter is not None and not self.pre_filter(midi_data):
-- 
2.43.0


From 3ef232721af8f708c6a828193447aebacceafa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/34] fix: MidiDataset does not rewrite the caller's
 midi_files list

download() replaced the paths by bare names in the list of the caller, so a
second MidiDataset(midi_files=the same list) looked for them in the cwd.
---
 neural_graph_composer/midi_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 259cb8f..c6fcf9e 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -205,7 +205,8 @@ class MidiDataset(InMemoryDataset):
         # list offline files.
         self.files = []
         if midi_files is not None:
-            self.files = midi_files
+            # a copy: download() replaces each path by a file name.
+            self.files = list(midi_files)
             self._offline = True
 
         self._remove_label = remove_label
-- 
2.43.0


From 887b36d62655d3ee93a15f5a753de28355375451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 07/34] fix: a processed file appears under its name only when
 it is complete

process() wrote the final path in place: a crash or a full disk during the
save left a torn file that every later MidiDataset took for a finished one.
---
 neural_graph_composer/midi_dataset.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index c6fcf9e..95f5494 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -4,6 +4,7 @@ import os
 import os.path as osp
 import pathlib
 import shutil
+import uuid
 import warnings
 from typing import Optional, List, Dict, Callable
 from pathlib import Path
@@ -543,6 +544,26 @@ class MidiDataset(InMemoryDataset):
                 print(f"Error for index {i}, hash {hash_of_index}, notes {original_set_of_notes}:")
                 print(node_features, original_set_tensor)
 
+    @staticmethod
+    def _save_processed(obj, path: str) -> None:
+        """Save a processed file so that a file under its final name is always
+        complete: an interrupted or failed save leaves only a temporary file.
+        :param obj: object to save.
+        :param path: final path of the processed file.
+        :return:
+        """
+        tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(tmp_path, "wb") as f:
+                torch.save(obj, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, path)
+        except BaseException:
+            if osp.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
+
     def process(self):
         """We compute the mask for each graph separately,
         since  graphs have different sizes or structures.
@@ -572,7 +593,7 @@ class MidiDataset(InMemoryDataset):
         _data, _slices = self.collate(self.__data_list)
         _dataset_length = len(self.__data_list)
         print(f"Saving {self.processed_dir} per_instrument_data.pt")
-        torch.save((_data, _slices, additional_data),
+        self._save_processed((_data, _slices, additional_data),
                    osp.join(self.processed_dir,
                             f'per_instrument_'
                             f'vel_{self.include_velocity}_'
@@ -597,7 +618,7 @@ class MidiDataset(InMemoryDataset):
         }
 
         print(f"Saving {self.processed_dir} data.pt")
-        torch.save((_data, _slices, additional_data),
+        self._save_processed((_data, _slices, additional_data),
                    osp.join(
                        self.processed_dir,
                        f'data_'
-- 
2.43.0


From 8564d66bd8431ed29354273fa9e1675fbc6e23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 08/34] fix: a raw file appears under its name only when it is
 complete

An interrupted copy or download left a torn file in raw/ that was then taken
for the downloaded file by every later MidiDataset.
---
 neural_graph_composer/midi_dataset.py | 37 +++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 95f5494..65ae218 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -9,6 +9,7 @@ import warnings
 from typing import Optional, List, Dict, Callable
 from pathlib import Path
 
+import mido
 import numpy as np
 import torch
 from torch_geometric.data import InMemoryDataset, extract_tar
@@ -419,6 +420,13 @@ class MidiDataset(InMemoryDataset):
         return hasattr(pyg_data, default_key) \
             and pyg_data.edge_attr is not None and pyg_data.weight.size(0) > 0
 
+    @staticmethod
+    def _publish_raw(tmp_path: str, path: str) -> None:
+        """Give a completely written raw file its final name."""
+        with open(tmp_path, "rb+") as f:
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+
     def download(self):
         """ Downloads the MIDI files from the given URL and extracts them to the `raw_dir`.
          If a list of files is provided, it copies the files to the `raw_dir`
@@ -436,15 +444,34 @@ class MidiDataset(InMemoryDataset):
                     self.files[i] = p.name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
-                    try:
-                        shutil.copy(src_path, dst_path)
-                    except shutil.SameFileError:
+                    if osp.exists(dst_path) and osp.samefile(src_path, dst_path):
                         warnings.warn(f"Data raw folder already containers {src_path} {dst_path}")
-                        pass
+                        continue
+                    # an interrupted copy must not pass for a raw file.
+                    tmp_path = f"{dst_path}.{uuid.uuid4().hex}.tmp"
+                    try:
+                        shutil.copyfile(src_path, tmp_path)
+                        self._publish_raw(tmp_path, dst_path)
+                        shutil.copymode(src_path, dst_path)
+                    finally:
+                        if osp.exists(tmp_path):
+                            os.remove(tmp_path)
         else:
             for raw_file in self.raw_file_names:
                 logging.debug(f"Downloading {raw_file}")
-                path = download_url(f"{self.__url}/{raw_file}", self.raw_dir)
+                path = osp.join(self.raw_dir, raw_file)
+                if not osp.exists(path):
+                    # an interrupted download must not pass for a raw file, and
+                    # a body that ends early is not an error for urllib.
+                    tmp_name = f"{raw_file}.{uuid.uuid4().hex}.tmp"
+                    tmp_path = osp.join(self.raw_dir, tmp_name)
+                    try:
+                        download_url(f"{self.__url}/{raw_file}", self.raw_dir, filename=tmp_name)
+                        mido.MidiFile(filename=tmp_path)
+                        self._publish_raw(tmp_path, path)
+                    finally:
+                        if osp.exists(tmp_path):
+                            os.remove(tmp_path)
                 if raw_file.endswith(".zip"):
                     extract_zip(path, self.raw_dir)
                 if raw_file.endswith(".tar"):
-- 
2.43.0


From e5c2c37a42e3c13050ae082b155454599bf73257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 09/34] fix: MidiReader.write without to_end no longer fails
 with TypeError

to_pretty_midi calls truncate(None); the None reached the comparison of the
note times in MidiNoteSequence.slice.
---
 neural_graph_composer/midi/midi_sequences.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..a91b27c 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -524,6 +524,9 @@ class MidiNoteSequences:
          :param from_start:  time offset from the start.
         :return:
         """
+        if initial_time is None:
+            initial_time = 0.0
+
         if from_start is not None and from_start < 0:
             raise ValueError("offset must be non-negative")
 
-- 
2.43.0


From 6b295b1c4dcc6c32fed7ad1e727315a00bb0ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 10/34] fix: writing a sequence with a single onset no longer
 fails

A debug message called estimate_tempo(), which raises for fewer than two
notes.
---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..9dbc437 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -402,7 +402,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From ba680afcb8f28f7620daa328e4f810d2746b6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 11/34] fix: write the instrument of each track, not program 0

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 9dbc437..44fe282 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -387,7 +387,7 @@ class MidiReader(MidiBaseReader):
 
             # create instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                sequence[k].instrument.instrument_num, sequence[k].instrument.is_drum
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From fe5c9212615aa66d95fe407d79ebc02e595b3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/34] fix: MidiReader.read(bytes) reads the stream from its
 start

CustomPrettyMIDI parses its source twice; the second parse of a stream began
at its end and failed with EOFError.
---
 neural_graph_composer/custom_pretty_midi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..edf5570 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -45,10 +45,14 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Mustafa TODO push to github to main PrettyMIDI
         self.drum_channel = drum_channel
+        start = midi_file.tell() if hasattr(midi_file, "seek") else None
         super().__init__(midi_file, resolution, initial_tempo)
         self.is_debug = is_debug
 
         if midi_file is not None:
+            if start is not None:
+                # the base class read the stream to its end.
+                midi_file.seek(start)
             self.from_file(midi_file)
             # Populate the list of instruments
         else:
-- 
2.43.0


From 38b55b6edb158a0f3d5e0ca1711d5b09262fb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 13/34] fix: a failed or interrupted MIDI write leaves the old
 file as it was

The writers truncated the target first and then wrote it event by event.
Without do_overwrite a file created after the check was overwritten.
---
 neural_graph_composer/midi/callbacks.py | 50 ++++++++++++++++++++++++-
 neural_graph_composer/midi_reader.py    |  3 +-
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/callbacks.py b/neural_graph_composer/midi/callbacks.py
index dcec2c1..dd37aa6 100644
--- a/neural_graph_composer/midi/callbacks.py
+++ b/neural_graph_composer/midi/callbacks.py
@@ -2,13 +2,59 @@
 Callback used in different spots.
 Author Mus spyroot@gmail.com
 """
-from typing import List
+import os
+import shutil
+import uuid
+from typing import List, Optional
 from pretty_midi import pretty_midi
 
 from neural_graph_composer.midi.midi_note import MidiNote
 from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
 
 
+def write_midi(midi: pretty_midi.PrettyMIDI, file_path: str, do_overwrite: Optional[bool] = True):
+    """Write a midi file so that file_path holds either its old content or the
+    complete new content, whatever interrupts the write.
+
+    :param midi: a midi to write
+    :param file_path: The file path to save the MIDI file to.
+    :param do_overwrite: if False an existing file is never replaced.
+    :raise FileExistsError: if file exists and do_overwrite is False.
+    :return:
+    """
+    if not isinstance(file_path, (str, os.PathLike)) or \
+            (os.path.exists(file_path) and not os.path.isfile(file_path)):
+        # a stream, or a device.
+        midi.write(file_path)
+        return
+
+    file_path = os.path.realpath(file_path)
+    tmp_path = f"{file_path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_path, "wb") as f:
+            midi.write(f)
+            f.flush()
+            os.fsync(f.fileno())
+        if do_overwrite:
+            if os.path.exists(file_path):
+                shutil.copymode(file_path, tmp_path)
+            os.replace(tmp_path, file_path)
+        else:
+            try:
+                # unlike a check before a rename, it fails if file exists by now.
+                os.link(tmp_path, file_path)
+            except FileExistsError:
+                raise
+            except OSError:
+                # a file system without hard links.
+                if os.path.exists(file_path):
+                    raise FileExistsError(f"A file with the name '{file_path}' already exists.")
+                os.replace(tmp_path, file_path)
+    finally:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+
+
 def save_midi_callback(file_path: str,
                        instrument: MidiInstrumentInfo,
                        notes: List[MidiNote],
@@ -51,4 +97,4 @@ def save_midi_callback(file_path: str,
 
     pm_instrument.notes.extend(pm_notes)
     midi.instruments.append(pm_instrument)
-    midi.write(file_path)
+    write_midi(midi, file_path)
diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 44fe282..bf153e8 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -19,6 +19,7 @@ import numpy as np
 from mido import MidiFile
 from pretty_midi import pretty_midi, Instrument
 
+from .midi.callbacks import write_midi
 from .midi.midi_spec import DEFAULT_PPQ
 from .midi.midi_note import MidiNote
 from .midi.midi_pitch_bend import MidiPitchBend
@@ -442,7 +443,7 @@ class MidiReader(MidiBaseReader):
             raise ValueError("The 'from_start' parameter should be less than or equal to 'to_end'.")
 
         pretty_midi_seq = MidiReader.to_pretty_midi(sequence, from_start=from_start, to_end=to_end)
-        pretty_midi_seq.write(filename)
+        write_midi(pretty_midi_seq, filename, do_overwrite=do_overwrite is not False)
 
     @classmethod
     def from_file(cls, file_path: str) -> MidiNoteSequences:
-- 
2.43.0


From be74950e6ae9adc9f08b911e1aa8f0f254c33999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 14/34] fix: checkpoints and metrics are replaced only by
 complete files

A crash or a full disk during torch.save left a torn newest checkpoint, and
load_checkpoint then failed although older complete ones were there.
---
 ngc_shared.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 31c1de0..5748ec0 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -1,5 +1,6 @@
 import glob
 import os
+import uuid
 from enum import Enum
 from typing import Optional
 
@@ -181,6 +182,25 @@ class Experiments:
 
         plt.show()
 
+    @staticmethod
+    def _save_atomic(obj, path):
+        """torch.save so that the file under path is always a complete one: an
+        interrupted or failed save leaves what path held before.
+        :param obj:
+        :param path:
+        :return:
+        """
+        tmp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(tmp_path, "wb") as f:
+                torch.save(obj, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_path, path)
+        finally:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+
     def save_model(self, filename, output_dir='checkpoints'):
         """
         :param filename:
@@ -190,7 +210,7 @@ class Experiments:
         if not os.path.exists(output_dir):
             os.makedirs(output_dir)
         filename = os.path.join(output_dir, filename)
-        torch.save(self.model.state_dict(), filename)
+        self._save_atomic(self.model.state_dict(), filename)
 
     def save_checkpoint(self, epoch, optimizer_state, output_dir='checkpoints', model_name='model'):
         """save checkpoint each model gets on dir.
@@ -205,7 +225,7 @@ class Experiments:
             os.makedirs(checkpoint_dir)
         checkpoint_path = os.path.join(checkpoint_dir, f"checkpoint_{epoch}.pt")
 
-        torch.save({
+        self._save_atomic({
             'epoch': epoch,
             'model_state_dict': self.model.state_dict(),
             'optimizer_state_dict': optimizer_state
@@ -308,7 +328,7 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_test_metrics.pt")
-            torch.save(metrics, filename)
+            self._save_atomic(metrics, filename)
 
     def update_metrics(self, loss_avg: float,
                        train_f1: Optional[float] = None,
@@ -350,7 +370,7 @@ class Experiments:
                 'test_recalls': self.val_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
-            torch.save(metrics, filename)
+            self._save_atomic(metrics, filename)
 
     def update_val_metric(self, val_acc, val_f1, val_precision, val_recall):
         """ Update validation metrics.
@@ -373,7 +393,7 @@ class Experiments:
                 'val_recalls': self.val_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
-            torch.save(metrics, filename)
+            self._save_atomic(metrics, filename)
 
     def split(self, ds):
         """
-- 
2.43.0


From b6315742b65915b1bab48aaaa9413792ba541622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 15/34] fix: save the train and test metrics in their files,
 not the validation ones

---
 ngc_shared.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 5748ec0..03101c5 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -317,10 +317,10 @@ class Experiments:
 
         if self.save_metrics and self.metrics_rate and self.current_epoch % self.metrics_rate == 0:
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls,
+                'test_accs': self.test_accs,
+                'test_f1s': self.test_f1s,
+                'test_precisions': self.test_precisions,
+                'test_recalls': self.test_recalls,
                 'test_aucs': self.test_aucs,
                 'test_aps': self.test_aps,
             }
@@ -364,10 +364,11 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls
+                'train_losses': self.train_losses,
+                'train_accs': self.train_accs,
+                'train_f1s': self.train_f1s,
+                'train_precisions': self.train_precisions,
+                'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
             self._save_atomic(metrics, filename)
@@ -392,6 +393,9 @@ class Experiments:
                 'val_precisions': self.val_precisions,
                 'val_recalls': self.val_recalls
             }
+            if self.metrics_dir:
+                if not os.path.exists(self.metrics_dir):
+                    os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
             self._save_atomic(metrics, filename)
 
-- 
2.43.0


From b513b7bbfbc50c4f8661880ef09fffd07ab74245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 16/34] fix: load_checkpoint restores the saved metrics

It looked for bare file names in a list of paths and found none.
---
 ngc_shared.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 03101c5..9881817 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -245,7 +245,8 @@ class Experiments:
             return
 
         checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
-        metrics_files = sorted(glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
+        metrics_files = sorted(os.path.basename(f) for f in glob.glob(
+            os.path.join(self.metrics_dir, f"{model_type}*.pt")))
         if not checkpoint_files:
             print("No checkpoints found.")
             return
@@ -262,25 +263,27 @@ class Experiments:
         if self.save_metrics and f"{model_type}_train_metrics.pt" in metrics_files:
             train_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_train_metrics.pt"))
             print(f"Loaded test metric from {train_metrics}.")
-            self.train_losses = train_metrics["train_losses"]
-            self.train_accs = train_metrics["train_accs"]
-            self.train_f1s = train_metrics["train_f1s"]
-            self.train_precisions = train_metrics["train_precisions"]
-            self.train_recalls = train_metrics["train_recalls"]
+            self.train_losses = train_metrics.get("train_losses", [])
+            self.train_accs = train_metrics.get("train_accs", [])
+            self.train_f1s = train_metrics.get("train_f1s", [])
+            self.train_precisions = train_metrics.get("train_precisions", [])
+            self.train_recalls = train_metrics.get("train_recalls", [])
         if self.save_metrics and f"{model_type}_validation_metrics.pt" in metrics_files:
             val_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_validation_metrics.pt"))
             print(f"Loaded test metric from {val_metrics}.")
-            self.val_accs = val_metrics["val_accs"]
-            self.val_f1s = val_metrics["val_f1s"]
-            self.val_precisions = val_metrics["val_precisions"]
-            self.val_recalls = val_metrics["val_recalls"]
+            self.val_accs = val_metrics.get("val_accs", [])
+            self.val_f1s = val_metrics.get("val_f1s", [])
+            self.val_precisions = val_metrics.get("val_precisions", [])
+            self.val_recalls = val_metrics.get("val_recalls", [])
         if self.save_metrics and f"{model_type}_test_metrics.pt" in metrics_files:
             test_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_test_metrics.pt"))
             print(f"Loaded test metric from {test_metrics}.")
-            self.test_accs = test_metrics["test_accs"]
-            self.test_f1s = test_metrics["test_f1s"]
-            self.test_precisions = test_metrics["test_precisions"]
-            self.test_recalls = test_metrics["test_recalls"]
+            self.test_accs = test_metrics.get("test_accs", [])
+            self.test_f1s = test_metrics.get("test_f1s", [])
+            self.test_precisions = test_metrics.get("test_precisions", [])
+            self.test_recalls = test_metrics.get("test_recalls", [])
+            self.test_aucs = test_metrics.get("test_aucs", [])
+            self.test_aps = test_metrics.get("test_aps", [])
 
         print(f"Loaded checkpoint from {checkpoint_path}.")
 
-- 
2.43.0


From e99cbb512315330232581a23137594d256af7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 17/34] fix: remove_nodes_and_edges returns a well-formed graph

The edges kept the numbers of the nodes before the removal, and y, the masks
and edge_attr their length.
---
 ngc_shared.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 9881817..ea8571c 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -429,8 +429,17 @@ class Experiments:
         nodes_to_remove = np.random.choice(data.num_nodes, num_nodes_to_remove, replace=False)
         mask = torch.ones(data.num_nodes, dtype=torch.bool)
         mask[nodes_to_remove] = False
-        data.x = data.x[mask]
-        data.edge_index = data.edge_index[:, mask[data.edge_index[0]] & mask[data.edge_index[1]]]
+        num_nodes = data.num_nodes
+        edge_mask = mask[data.edge_index[0]] & mask[data.edge_index[1]]
+        # the nodes that remain are numbered from 0.
+        new_index = torch.cumsum(mask, dim=0) - 1
+        data.edge_index = new_index[data.edge_index[:, edge_mask]]
+        if data.edge_attr is not None:
+            data.edge_attr = data.edge_attr[edge_mask]
+        for key in ('x', 'y', 'train_mask', 'val_mask', 'test_mask'):
+            value = data[key] if key in data else None
+            if isinstance(value, torch.Tensor) and value.size(0) == num_nodes:
+                data[key] = value[mask]
         return data
 
     def dataset_split_mask(self, split_mask_ration=0.8):
-- 
2.43.0


From c4d1cd7c5f954d063868d1b359f2582339dc2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 18/34] fix: RandomNodeDrop returns a well-formed graph

The edges kept the numbers of the nodes before the drop, so they pointed past
the last node or to another one; without edge_attr it failed to unpack, and
node_hash and label kept the dropped nodes.
---
 neural_graph_composer/transforms.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..cfa8525 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -97,12 +97,19 @@ class RandomNodeDrop(T.BaseTransform):
 
         data.edge_index, data.edge_attr = RandomNodeDrop.filter_adj(
             data.edge_index, data.edge_attr, remain_idx, num_nodes)
+        # the nodes that remain are numbered from 0.
+        new_index = torch.zeros(num_nodes, dtype=torch.long)
+        new_index[remain_idx] = torch.arange(remain_idx.numel())
+        data.edge_index = new_index[data.edge_index]
+        for key in ('label', 'node_hash'):
+            if key in data and isinstance(data[key], list):
+                data[key] = [data[key][i] for i in remain_idx.tolist()]
         data.x = data.x[remain_idx]
         data.y = data.y[remain_idx]
 
-        data.train_mask = data.train_mask[remain_idx]
-        data.val_mask = data.val_mask[remain_idx]
-        data.test_mask = data.test_mask[remain_idx]
+        for key in ('train_mask', 'val_mask', 'test_mask'):
+            if key in data:
+                data[key] = data[key][remain_idx]
         data.num_nodes = data.x.shape[0]
 
         # print(f"called return data {data}")
@@ -132,7 +139,7 @@ class RandomNodeDrop(T.BaseTransform):
         if edge_attr is not None:
             return edge_index[:, mask_all], edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index[:, mask_all], None
 
     def __repr__(self):
         """
-- 
2.43.0


From b7a547a0e7ced1803b2ee989218dad77eb2b571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 19/34] fix: RandomEdgeDrop works on a graph without link
 labels and keeps the labels

It raised AttributeError without pos_edge_label, and indexed the label index
with the mask of the edges of the graph.
---
 neural_graph_composer/transforms.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index cfa8525..cd27158 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -11,6 +11,8 @@ for graph classification task.
 
 Author Mus spyroot@gmail.com
 """
+import copy
+
 import torch
 
 from typing import Optional, Tuple
@@ -168,26 +170,11 @@ class RandomEdgeDrop(T.BaseTransform):
         if data.edge_attr is not None:
             edge_attr = data.edge_attr[mask]
 
-        pos_edge_mask = None
-        neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
-            pos_edge_mask = data.pos_edge_label_index[:, mask]
-            neg_edge_mask = data.neg_edge_label_index[:, mask]
-
-        return Data(
-            x=data.x,
-            edge_index=edge_index,
-            edge_attr=edge_attr,
-            y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
-            train_mask=data.train_mask,
-            val_mask=data.val_mask,
-            test_mask=data.test_mask,
-            pos_edge_label_index=pos_edge_mask,
-            neg_edge_label_index=neg_edge_mask,
-            node_hash=data.node_hash
-        )
+        # labels are per candidate edge, not per edge of the graph: they stay.
+        out = copy.copy(data)
+        out.edge_index = edge_index
+        out.edge_attr = edge_attr
+        return out
 
     def __repr__(self):
         return f'{self.__class__.__name__}(p={self.p})'
-- 
2.43.0


From d2f48ac31f343ad69c4d0fa8621bcae41c64ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 20/34] fix: the transforms can be instantiated with the
 current torch_geometric

BaseTransform declares forward() abstract since 2.3 and calls it from
__call__ on a copy; a class that only defines __call__ raises TypeError.
---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index cd27158..c030481 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -28,7 +28,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -51,7 +51,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -85,7 +85,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -157,7 +157,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From ef7bef3c44fcd3792ca73d8671f1231e73daf521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 21/34] fix: a signature applies from its own time on, the last
 added one wins

---
 neural_graph_composer/midi/midi_sequences.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a91b27c..b95df81 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -352,7 +352,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = max((k.seq for k in self.time_signatures), default=0) + 1
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = max((k.seq for k in self.key_signatures), default=0) + 1
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -404,7 +404,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = max((k.seq for k in self.tempo_signatures), default=0) + 1
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
@@ -584,7 +584,7 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.time_signatures, start_time, key=lambda k: k.midi_time) - 1
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -601,7 +601,7 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.tempo_signatures, start_time, key=lambda k: k.midi_time) - 1
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -612,7 +612,7 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = bisect_right(self.key_signatures, start_time, key=lambda k: k.midi_time) - 1
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From beeac97079408058867c76e3b166d5c3ad4c02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 22/34] fix: the initial tempo follows an added tempo signature

---
 neural_graph_composer/midi/midi_sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index b95df81..a3b16df 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -413,6 +413,7 @@ class MidiNoteSequences:
             bisect.insort_left(self.tempo_signatures, v, key=lambda k: k)
 
         self.tempo_signature.cache_clear()
+        self.initial_tempo.cache_clear()
 
     def slice_time_signatures(
             self,
-- 
2.43.0


From bfdeb0b4cd12d4f78af08ff8bd3174b767709f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 23/34] fix: stack the node attributes into the feature matrix
 of the graph

---
 neural_graph_composer/midi_graph_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index f257d5b..79f1ecc 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -283,7 +283,8 @@ class MidiGraphBuilder:
                     continue
                 try:
                     if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                        # one row per node.
+                        data[key] = torch.stack([torch.as_tensor(v) for v in value], dim=0)
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From 7bcaecc5cb6c24496cb0cd40a1a3318ae4bfcf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 24/34] fix: a damaged pre_transform.pt or pre_filter.pt does
 not block the dataset

---
 neural_graph_composer/midi_dataset.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 65ae218..37598a6 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -17,6 +17,7 @@ from torch_geometric.data import InMemoryDataset, extract_tar
 from .midi_graph_builder import MidiGraphBuilder
 from .midi_reader import MidiReader
 from torch_geometric.data import InMemoryDataset, download_url, extract_zip
+from torch_geometric.data.dataset import _repr
 from torch.utils.data import Dataset
 
 
@@ -591,6 +592,39 @@ class MidiDataset(InMemoryDataset):
                 os.remove(tmp_path)
             raise
 
+    def _process(self):
+        """The same as in InMemoryDataset, except that the two marker files are
+        replaced only by complete ones, and that a damaged marker (it only serves
+        a warning) does not make a complete dataset unusable.
+        :return:
+        """
+        markers = {'pre_transform': self.pre_transform, 'pre_filter': self.pre_filter}
+        force_reload = getattr(self, 'force_reload', False)
+        for name, value in markers.items():
+            path = osp.join(self.processed_dir, f'{name}.pt')
+            if force_reload or not osp.exists(path):
+                continue
+            try:
+                saved = torch.load(path)
+            except (OSError, MemoryError):
+                raise
+            except Exception as err:
+                warnings.warn(f"Ignoring the damaged file {path}: {err}")
+                continue
+            if saved != _repr(value):
+                warnings.warn(
+                    f"The `{name}` argument differs from the one used in the "
+                    f"pre-processed version of this dataset. To make use of "
+                    f"another one, delete '{self.processed_dir}' first.")
+
+        if not force_reload and all(osp.exists(p) for p in self.processed_paths):
+            return
+
+        os.makedirs(self.processed_dir, exist_ok=True)
+        self.process()
+        for name, value in markers.items():
+            self._save_processed(_repr(value), osp.join(self.processed_dir, f'{name}.pt'))
+
     def process(self):
         """We compute the mask for each graph separately,
         since  graphs have different sizes or structures.
-- 
2.43.0


From 7be61cc550672d1fcf84d75dd5d5fcd03dae79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 25/34] fix: keep the tick table current while writing tempo
 changes

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index bf153e8..1f7157c 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -364,7 +364,7 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            pm._update_tick_to_time(0)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From 58de106cf24ce56903d9b63dd5070d57c2e7b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 26/34] fix: emit tempo signatures in order of time

---
 neural_graph_composer/midi/midi_sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a3b16df..66eda30 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -476,9 +476,9 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
+        for sig in _tempo_signatures:
             if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
                 continue
             yield sig
-- 
2.43.0


From 1ff052d80b51ce20429a8d360ebf8f96db5aff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 27/34] fix: concurrent trainers may create the output
 directory at the same time

---
 ngc_shared.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index ea8571c..6d17ca3 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -175,7 +175,7 @@ class Experiments:
 
         if output_dir:
             if not os.path.exists(output_dir):
-                os.makedirs(output_dir)
+                os.makedirs(output_dir, exist_ok=True)
             print(f"Saving plot {model_type}_metrics.png")
             filename = os.path.join(output_dir, f"{model_type}_metrics.png")
             plt.savefig(filename)
@@ -208,7 +208,7 @@ class Experiments:
         :return:
         """
         if not os.path.exists(output_dir):
-            os.makedirs(output_dir)
+            os.makedirs(output_dir, exist_ok=True)
         filename = os.path.join(output_dir, filename)
         self._save_atomic(self.model.state_dict(), filename)
 
@@ -222,7 +222,7 @@ class Experiments:
         """
         checkpoint_dir = os.path.join(output_dir, model_name)
         if not os.path.exists(checkpoint_dir):
-            os.makedirs(checkpoint_dir)
+            os.makedirs(checkpoint_dir, exist_ok=True)
         checkpoint_path = os.path.join(checkpoint_dir, f"checkpoint_{epoch}.pt")
 
         self._save_atomic({
@@ -237,7 +237,7 @@ class Experiments:
         :param checkpoint_dir: Path to the checkpoint dir
         """
         if not os.path.exists(checkpoint_dir):
-            os.makedirs(checkpoint_dir)
+            os.makedirs(checkpoint_dir, exist_ok=True)
 
         checkpoint_dir = os.path.join(checkpoint_dir, model_type)
         if not os.path.exists(checkpoint_dir):
@@ -329,7 +329,7 @@ class Experiments:
             }
             if self.metrics_dir:
                 if not os.path.exists(self.metrics_dir):
-                    os.makedirs(self.metrics_dir)
+                    os.makedirs(self.metrics_dir, exist_ok=True)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_test_metrics.pt")
             self._save_atomic(metrics, filename)
 
@@ -365,7 +365,7 @@ class Experiments:
         if self.save_metrics and self.metrics_rate and self.current_epoch % self.metrics_rate == 0:
             if self.metrics_dir:
                 if not os.path.exists(self.metrics_dir):
-                    os.makedirs(self.metrics_dir)
+                    os.makedirs(self.metrics_dir, exist_ok=True)
             metrics = {
                 'train_losses': self.train_losses,
                 'train_accs': self.train_accs,
@@ -398,7 +398,7 @@ class Experiments:
             }
             if self.metrics_dir:
                 if not os.path.exists(self.metrics_dir):
-                    os.makedirs(self.metrics_dir)
+                    os.makedirs(self.metrics_dir, exist_ok=True)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
             self._save_atomic(metrics, filename)
 
-- 
2.43.0


From 84f599dfb7854125af74641d856131e4b0a567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 28/34] fix: remove_nodes_and_edges drops the labels and hashes
 of the removed nodes

---
 ngc_shared.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngc_shared.py b/ngc_shared.py
index 6d17ca3..2a62123 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -440,6 +440,11 @@ class Experiments:
             value = data[key] if key in data else None
             if isinstance(value, torch.Tensor) and value.size(0) == num_nodes:
                 data[key] = value[mask]
+        for key in ('label', 'node_hash'):
+            if key in data and isinstance(data[key], list):
+                data[key] = [v for v, keep in zip(data[key], mask.tolist()) if keep]
+        if 'num_nodes' in data:
+            data.num_nodes = int(mask.sum())
         return data
 
     def dataset_split_mask(self, split_mask_ration=0.8):
-- 
2.43.0


From 59200d95d038f0ac5fac2b8acb3e1904c3f4ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 29/34] fix: a raw file that vanished fails the build of the
 whole-piece view too

---
 neural_graph_composer/midi_dataset.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 37598a6..4a9d79b 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -756,8 +756,6 @@ class MidiDataset(InMemoryDataset):
             except KeyError as ker_err:
                 print(ker_err)
                 print(f"Error in file {raw_path} error: {ker_err}")
-            except FileNotFoundError as file_not_found:
-                print(f"Error in file {raw_path} error: {file_not_found}")
 
     def split(self, train_size, val_size, test_size):
         """
-- 
2.43.0


From 45debd0ce92c102b4fc0372c967c71c7d8b4f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 30/34] fix: compute_statistics counts the classes of datasets
 with and without labels

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 4a9d79b..bcc5ddd 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -398,7 +398,7 @@ class MidiDataset(InMemoryDataset):
         for data in self:
             num_nodes += data.num_nodes
             num_edges += data.num_edges
-            num_labels += torch.unique(data.label).size(0)
+            num_labels += torch.unique(data.y).size(0)
 
         return {
             "num_nodes": num_nodes,
-- 
2.43.0


From 6e6234c31c92bc30716d90f1f703f1499663bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 31/34] fix: accept the lowest MIDI pitch bend, -8192

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From d629f40c9460313101a25fafaddab5b034c040c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 32/34] fix: slice_tempo_signature takes an upper bound of 0 as
 no bound

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 66eda30..1e30fa9 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -479,7 +479,7 @@ class MidiNoteSequences:
             _tempo_signatures = self.tempo_signatures
 
         for sig in _tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+            if sig == self.initial_tempo or upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From 29406d9d69cf7f1884a4194c9ec6f4a05d8331e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 33/34] fix: find the checkpoints and metrics of models and
 folders whose names hold glob characters

---
 ngc_shared.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 2a62123..3c1986f 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -244,9 +244,9 @@ class Experiments:
             print(f"Checkpoint directory {checkpoint_dir} does not exist.")
             return
 
-        checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
+        checkpoint_files = glob.glob(os.path.join(glob.escape(checkpoint_dir), "*.pt"))
         metrics_files = sorted(os.path.basename(f) for f in glob.glob(
-            os.path.join(self.metrics_dir, f"{model_type}*.pt")))
+            glob.escape(os.path.join(self.metrics_dir, model_type)) + "*.pt"))
         if not checkpoint_files:
             print("No checkpoints found.")
             return
-- 
2.43.0


From 64aeaab116931b6ef60f40ad29a854e7cb2d82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:18 +0000
Subject: [PATCH 34/34] fix: keep midi files of the same name from different
 folders apart in the raw folder

---
 neural_graph_composer/midi_dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index bcc5ddd..3ad8bcd 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -436,13 +436,19 @@ class MidiDataset(InMemoryDataset):
         """
         logging.debug(f"raw_file_names {self.raw_file_names}")
         if len(self.files) > 0 and self._offline:
+            taken = set()
             for i, raw_file in enumerate(self.raw_file_names):
                 p = Path(raw_file).expanduser().resolve()
                 if not p.exists():
                     raise RuntimeError(f"File not found: {raw_file}")
                 if p.is_file():
-                    dst_path = os.path.join(self.raw_dir, p.name)
-                    self.files[i] = p.name
+                    # files of the same name from different folders are kept apart.
+                    name, n = p.name, 1
+                    while name in taken:
+                        name, n = f"{p.stem}_{n}{p.suffix}", n + 1
+                    taken.add(name)
+                    dst_path = os.path.join(self.raw_dir, name)
+                    self.files[i] = name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
                     if osp.exists(dst_path) and osp.samefile(src_path, dst_path):
-- 
2.43.0

