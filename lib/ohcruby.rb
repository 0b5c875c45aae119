# Long-lived driver of the Ruby side: one JSON request per line, one JSON answer per line.
require 'json'
$out = $stdout.dup; $stdout.reopen($stderr)
$: << ARGV[0]
require 'gestalt'

def b(s) s && s.unpack1('m') end
def e(s) s && [s.to_s].pack('m0') end

def list_of(q)
  case q['how']
  when 'paths' then Ohcount::SourceFileList.new(:paths => q['paths'].map { |p| b(p) })
  when 'files' then Ohcount::SourceFileList.new(:files => q['files'].map { |p| b(p) })
  else
    l = Ohcount::SourceFileList.new
    (q['paths'] || []).each { |p| l.add_directory(b(p)) }
    (q['files'] || []).each { |p| l.add_file(b(p)) } if q['how'] == 'add_files'
    l
  end
end

def show(gs) gs.map { |g| [g.type.to_s, g.name, g.count] } end

def gestalt(q)
  Ohcount::Gestalt.module_eval(q['defs']) if q['defs']
  if q['how'] == 'each'            # one file at a time, from memory
    en = Ohcount::Gestalt::GestaltEngine.new
    keep = q['mem'].map { |p, c| Ohcount::SourceFile.new(b(p), :contents => b(c)) }
    keep.each { |s| en.process(s) }
    return show(en.calc_gestalts)
  elsif q['how'] == 'one'
    p, c = q['mem'][0]
    return show(Ohcount::SourceFile.new(b(p), :contents => b(c)).gestalts)
  end
  l = list_of(q)
  case q['ask']
  when 'find' then show(Ohcount::Gestalt::Base.find_gestalts(l))
  when 'all' then l.analyze; show(l.gestalts)
  when 'sorted' then l.analyze(:gestalt); show(l.gestalts.sort)
  else l.analyze_gestalt; show(l.gestalts)
  end
end

def answers(sf, ask, other)
  ask.map do |a|
    case a
    when 'polyglot' then e(sf.polyglot)
    when 'contents' then c = sf.get_contents; e(c)
    when 'text' then c = sf.get_contents && sf.contents; c && [e(c), c.encoding.to_s]
    when 'size' then sf.contents_size
    when 'languages' then sf.languages.map { |x| e(x) }
    when 'breakdowns' then sf.language_breakdowns.map { |x| [e(x.name), e(x.code), e(x.comments), x.code_count, x.comments_count, x.blanks_count] }
    when 'locs' then sf.loc_list.map { |x| [e(x.language), x.code, x.comments, x.blanks, x.filecount, x.total] }
    when 'loc_totals' then l = sf.get_loc_list; [l.code, l.comments, l.blanks, l.total, l.filecount]
    when 'licenses' then sf.licenses.map { |x| e(x) }
    when 'names' then [e(sf.filepath), e(sf.filename), e(sf.ext)]
    when 'diff' then sf.diff(other).loc_deltas.map { |x| [e(x.language), x.code_added, x.code_removed, x.comments_added, x.comments_removed, x.blanks_added, x.blanks_removed] }
    when /^breakdown (.*)/ then x = sf.language_breakdown($1.to_sym); x && [e(x.name), e(x.code)]
    when 'gc' then GC.start; 300.times { |i| "garbage #{i}" * 3 }; nil
    end
  end
end

def source(d)
  o = {}
  o[:contents] = b(d['contents']) if d['contents']
  o[:file_location] = b(d['disk']) if d['disk']
  o[:filenames] = d['names'].map { |n| b(n) } if d['names']
  sf = d['bare'] ? Ohcount::SourceFile.new(b(d['path'])) : Ohcount::SourceFile.new(b(d['path']), o)
  if d['bare']
    sf.file_location = o[:file_location] if o[:file_location]
    sf.set_contents(o[:contents]) if o[:contents]
    sf.filenames = o[:filenames] if o[:filenames]
  end
  sf
end

def churn
  3.times { GC.start; 400.times { |i| "g" * (i % 40) } }
end

def sourcefile(q)
  sf = source(q['a']); other = q['b'] && source(q['b'])
  answers(sf, q['ask'], other)
end

# what was asked is kept after the file itself is out of reach
def kept(q)
  grab = lambda { s = source(q['a']); [s.language_breakdowns, s.loc_list, s.licenses] }
  bd, lo, li = grab.call
  churn
  (1..30).each { |i| Ohcount::SourceFile.new("z#{i}.rb", :contents => "foo #{i}\n" * 40).language_breakdowns }
  churn
  [bd.map { |x| [e(x.name), e(x.code), e(x.comments)] }, lo.map { |x| [e(x.language), x.code] }, li.map { |x| e(x) }]
end

def keptlist(q)
  grab = lambda { out = []; list_of(q).each_source_file { |s| out << s }; out }
  files = grab.call
  churn
  (1..30).each { |i| Ohcount::SourceFileList.new(:files => ["z#{i}.rb"] * 5) }
  churn
  files.map { |s| [e(s.filepath), e(s.polyglot)] }
end

def list(q)
  l = list_of(q)
  names = []; l.each { |n| names << e(n) }
  src = []; l.each_source_file { |s| src << [e(s.filepath), e(s.polyglot)] }
  t = l.analyze_languages
  rows = []; it = t.head
  while it
    rows << [e(it.loc.language), it.loc.code, it.loc.comments, it.loc.blanks, it.loc.filecount, it.loc.total]; it = it.next
  end
  [l.size, names, src, rows, [t.code, t.comments, t.blanks, t.total, t.filecount]]
end

def misc(q)
  q['names'].map { |n| n = b(n)
    m = Ohcount.ohcount_hash_language_from_name(n)
    [Ohcount::Detector.binary_filename?(n), m && [e(m.name), e(m.nice_name), m.category]] }
end

def serve(q)
  {'r' => send({'g' => :gestalt, 's' => :sourcefile, 'k' => :kept, 'K' => :keptlist, 'l' => :list, 'm' => :misc}[q['op']], q)}
rescue Exception => x
  {'error' => "#{x.class}: #{x.message}"[0, 600], 'at' => (x.backtrace || [])[0, 4]}
end

while (line = $stdin.gets)
  q = JSON.parse(line)
  if q['defs']                     # definitions are global: a process of their own
    r, w = IO.pipe
    pid = fork { r.close; w.write(JSON.generate(serve(q))); w.close; exit!(0) }
    w.close; a = r.read; r.close; Process.wait(pid)
    a = JSON.generate('died' => $?.to_s) if a.empty?
  else a = JSON.generate(serve(q))
  end
  $out.write(a + "\n"); $out.flush
end
