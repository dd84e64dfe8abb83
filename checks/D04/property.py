from prophelp import prop
P = prop('D04', 'PSF models are read, validated and evaluated as their files say',
 'For every PSFEx file, PSF image and stack of PSF images: a valid file yields exactly the PSF it describes (each polynomial term of each group of context properties, scaled and offset as the header says, multiplies its own coefficient image; the sampling and size are those of the file), also when evaluated by several threads at once. A file whose components, groups, degrees, coefficients or sizes do not fit each other is refused with an exception, never read out of bounds.',
 ['inputs', 'schedules'],
 'Runs the real PSF readers on every small model (components, groups and degrees enumerated, and each single fault of the file) and the evaluation under a controlled scheduler, and compares every pixel with the polynomial computed directly.',
 'The unit tests need files of the test data and one polynomial; the assignment of terms to components depends on degrees and groups, faults in files are unlimited, and the evaluation shares state between threads.',
 ['SEFramework/src/lib/Psf/VariablePsf.cpp'],
 [('VariablePsf', 'SEFramework/SEFramework/Psf/VariablePsf.h'), ('VariablePsfStack', 'SEFramework/SEFramework/Psf/VariablePsfStack.h'),
  ('PsfPluginConfig::readPsf', 'SEImplementation/src/lib/Plugin/Psf/PsfPluginConfig.cpp'), ('PsfTask', 'SEImplementation/src/lib/Plugin/Psf/PsfTask.cpp'), ('SourcePsfTask', 'SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp')],
 ['Psf::getPsf', 'exceptions of the readers'], None)
TECHNIQUE = 'exhaustive bounded exploration of the real implementation: all small PSF models and single faults of files; all interleavings within the preemption bound for shared PSFs'
NOTE = 'Files are written with cfitsio.'
