"""C04: statements of every form, and what must not be in what the back ends receive."""
import base64
import re

TEMPLATES = """
select * from {t} where {s}='{V}'
select {p} from {t} where {s} = '{V}' and {n}={N}
select {p} from {t} where {s}!='{V}'
select {p} from {t} where {s}<>'{V}'
select {p} from {t} where {n}<>{N}
select {p} from {t} where {n}!={N}
select {p} from {t} where not {n}={N}
select {p} from {t} where not {s}='{V}'
select {p} from {t} where {s} <=> '{V}'
select {p} from {t} where {n}>{N}
select {p} from {t} where {n}<={N} or {s}='{V}'
select {p} from {t} where {s}>'{V}'
select {p} from {t} where {s}<='{V}'
select {p} from {t} where {s} in ('{V}')
select {p} from {t} where {s} in ('{V}','{V}')
select {p} from {t} where {s} not in ('{V}','{V}')
select {p} from {t} where {n} in ({N},{N})
select {p} from {t} where {n} in ({N})
select {p} from {t} where {n} not in ({N},{N})
select {p} from {t} where {n} between {N} and {N}
select {p} from {t} where {n} not between {N} and {N}
select {p} from {t} where {s} between '{V}' and '{V}'
select {p} from {t} where '{V}'={s}
select {p} from {t} where {N}={n}
select {p} from {t} where {N}<{n}
select {p} from {t} where {n}='{N}'
select {p} from {t} where {n}>'{N}'
select {p} from {t} where {n}=-{N}
select {p} from {t} where {n}>-{N}
select {p} from {t} where {n}={N}.5
select {p} from {t} where {n}={N}+1
select {p} from {t} where {n}+1={N}
select {p} from {t} where {n}-{N}=0
select {p} from {t} where {n}*2>{N}
select {p} from {t} where {n} % 7 = {N}
select {p} from {t} where {s}="{V}"
select {p} from {t} where {t}.{s}='{V}'
select {p} from {t} where `{s}`='{V}'
select {p} from `{t}` where {s}='{V}'
select {p} from app.{t} where {s}='{V}'
select {p} from `app`.`{t}`
select {p} from {T} where {S}='{V}'
SELECT {p} FROM {t} WHERE {s} LIKE '%{V}%'
select {p} from {t} where {s} like '{V}%'
select {p} from {t} where {s} like '{V}'
select {p} from {t} where {s} like '{V}_'
select {p} from {t} where {s} like '%{V}_{V}%'
select {p} from {t} where {s} like '_{V}'
select {p} from {t} where {s} like '%{V}%{V}%'
select {p} from {t} where {s} like '{V}\\%'
select {p} from {t} where {s} like '%ab%{V}'
select {p} from {t} where {s} not like '%{V}%'
select {p} from {t} where {s} like concat('%','{V}')
select {p} from {t} where {n} like '%{N}%'
select {p} from {t} where {s} regexp '{V}'
select {p} from {t} where {s} rlike '{V}'
select {p} from {t} where {s} is null
select {p} from {t} where {s} is not null
select {p} from {t} where {n} is null or {s}='{V}'
select {p} from {t} where {s} = null
select {p} from {t} where {s}={V}
select {p} from {t} where {s}=true
select {p} from {t} where {s}='{V}' or true
select {p} from {t} where ({s}='{V}' or {s}='{V}') and {p}=3
select {p} from {t} where {p}=3 and (({n}={N}) or ({n}>{N} and {s}='{V}'))
select {p} from {t} where ({s},{n})=('{V}',{N})
select {p} from {t} where ({s},{n}) in (('{V}',{N}))
select {p} from {t} where upper({s})='{V}'
select {p} from {t} where {s}=upper('{V}')
select {p} from {t} where concat({s},'x')='{V}'
select {p} from {t} where {s}=concat('{V}','x')
select {p} from {t} where length({s})>3
select {p} from {t} where substr({s},1,3)='{V}'
select {p} from {t} where locate('{V}',{s})>0
select {p} from {t} where instr({s},'{V}')
select {p} from {t} where ifnull({s},'{V}')='{V}'
select {p} from {t} where coalesce({s},'{V}')='{V}'
select {p} from {t} where abs({n})={N}
select {p} from {t} where cast({n} as char)='{N}'
select {p} from {t} where if({n}={N},1,0)
select {p} from {t} where case when {s}='{V}' then 1 else 0 end
select {p} from {t} where {s}=(select max({s}) from {t})
select {p} from {t} where {p} in (select {p} from {t} where {s}='{V}')
select {p} from {t} where {p}=(select max({p}) from {t} where {n}={N})
select {p} from {t} where exists (select 1 from {t} where {s}='{V}')
select {p} from {t} where exists(select * from {t2})
select {p} from {t} where {s} in (select {s2} from {t2} where {n2}={N})
select {p} from {t} where {n} > all (select {n2} from {t2})
select {s} from {t} group by {s}
select {p}, count(*) from {t} group by {p} having {s}='{V}'
select {s}, count(*) from {t} group by {s} having max({n})>{N}
select max({n}) from {t} having max({n})>{N}
select {p} from {t} having {n}={N}
select {p} from {t} group by {p} with rollup
select {p} from {t} order by {s}
select {p} from {t} order by {n} desc, {s}
select {p} from {t} order by {n}+1
select {p} from {t} order by length({s})
select {p} from {t} order by field({s},'{V}')
select {p} from {t} order by {s}='{V}'
select {p} from {t} order by case when {n}={N} then 0 else 1 end
select {p} from {t} order by abs({n}-{N})
select {s} as x from {t}
select {s} x from {t} where x='{V}'
select {p} as {s} from {t}
select {t}.{s} from {t}
select {t}.* from {t}
select {s}, {n} from {t} a
select a.{s} from {t} a where a.{s}='{V}'
select a.{s} from {t} as a where a.{n}>{N}
select a.* from {t} a
select upper({s}) from {t}
select concat({s},'w') from {t}
select concat({s},{p}) from {t}
select {n}+5 from {t}
select {n}*{n} from {t}
select {n}+{n} from {t}
select sum({n}+1) from {t}
select sum({p}) from {t} where {s}='{V}'
select count({s}) from {t}
select count(distinct {s}) from {t} where {n}={N}
select count(distinct {n}) from {t}
select group_concat({s}) from {t}
select max({s}) from {t}
select max(length({s})) from {t}
select avg({n}) from {t}
select sum({n}) from {t} where {s}='{V}'
select std({n}) from {t}
select ifnull({s},'w') from {t}
select coalesce({n},4) from {t}
select if({s}='{V}',1,2) from {t}
select case when {s}='{V}' then 1 else 2 end from {t}
select case {s} when '{V}' then 1 else 2 end from {t}
select {p}, case when {n}>{N} then 'a' end from {t}
select {s}='{V}' from {t}
select {n}>{N} from {t}
select ({s}='{V}') as hit from {t}
select {s} is null from {t}
select {s} in ('{V}') from {t}
select {n} between {N} and {N} from {t}
select cast({s} as char) from {t}
select distinct {s}, {n} from {t}
select distinct {p} from {t} where {s}='{V}'
select distinct upper({s}) from {t}
select (select max({n}) from {t})
select {p}, (select {s2} from {t2} where {n2}={N} limit 1) from {t}
select exists(select 1 from {t} where {s}='{V}')
select a.{p} from (select {p},{s} from {t} where {s}='{V}') a
select a.{s} from (select {s} from {t}) a where a.{s}='{V}'
select a.{s} from (select * from {t}) a where {n}={N}
select * from (select * from {t}) a
select * from (select * from {t} where {n}={N}) a, (select * from {t2}) b
select * from (select {s} as y from {t}) a where y='{V}'
select * from (select * from (select * from {t}) b) a where {s}='{V}'
select {t}.{p}, {t2}.{p2} from {t} inner join {t2} on {t}.{p}={t2}.{p2}
select {t}.{s}, {t2}.{s2} from {t} inner join {t2} on {t}.{p}={t2}.{p2} where {t}.{s}='{V}'
select {t}.{p} from {t} inner join {t2} on {t}.{s}={t2}.{s2}
select {t}.{p} from {t} inner join {t2} on {t}.{n}={t2}.{p2} where {t2}.{n2}>{N}
select {t}.{p} from {t} left join {t2} on {t}.{p}={t2}.{p2} and {t2}.{s2}='{V}'
select {t}.{p} from {t} left join {t2} on {t}.{p}={t2}.{p2} order by {t}.{s}
select {t}.{p} from {t} inner join {t2} on {t}.{p}={t2}.{p2} group by {t}.{n}
select {t}.{p} from {t} inner join {t2} using ({p})
select {t}.{p} from {t} inner join {t2} using ({s})
select {t}.{p} from {t} cross join {t2}
select {t}.{p} from {t} natural join {t2}
select * from {t} inner join {t2} on {t}.{p}={t2}.{p2}
select * from {t}, {t2} where {t}.{p}={t2}.{p2}
select * from {t}, {t2}
select a.{s}, b.{s2} from {t} a inner join {t2} b on a.{p}=b.{p2}
select a.{p} from {t} a inner join {t2} b on a.{s}=b.{s2} where b.{n2}={N}
select a.{p} from {t} a, {t} b where a.{s}=b.{s}
select a.{p} from {t} a left join {t2} b on a.{p}=b.{p2} where b.{s2} is null
select max({t}.{n}) from {t} inner join {t2} on {t}.{p}={t2}.{p2}
select {p} from {t} union select {p2} from {t2}
select {p} from {t} union all select {p2} from {t2} where {s2}='{V}'
select {s} from {t} union select {s2} from {t2}
(select {p} from {t}) union (select {p2} from {t2})
select {p} from {t} where {s}='{V}' union select 1
select {p} from {t} limit 3
select {p} from {t} where {s}='{V}' limit 3 offset 2
select {p} from {t} limit 5
select {p} from {t} for update
select {p} from {t} where {s}='{V}' lock in share mode
select /* {s} */ {p} from {t}
select {p} from {t} -- {s} {t}
select {p} from {t} # {s}
select {p} from {t} where {s}='{V}' /* {t} */
select sql_no_cache {p} from {t}
select {p} from {t} use index ({s})
select {p} from {t} force index (primary) where {s}='{V}'
select {p} from {t} partition (p0)
select {p} into outfile '/tmp/x' from {t}
select {p} from {t} window w as (partition by {s})
select row_number() over (partition by {s} order by {n}) from {t}
select sum({n}) over () from {t}
with x as (select * from {t}) select * from x
with x as (select {s} from {t} where {s}='{V}') select {s} from x
insert into {t}({p},{s}) values(1,'{V}')
insert into {t}({p},{s},{n}) values(1,'{V}',{N})
insert into {t} ({p}, {n}, {s}) values (1, {N}, '{V}')
insert into {t}({s}) values('{V}')
insert into {t}({n}) values({N})
insert into {t}({p},{n}) values(1,-{N})
insert into {t}({p},{n}) values(1,'{N}')
insert into {t}({p},{n}) values(1,{N}.25)
insert into {t}({p},{n}) values(1,{N}+1)
insert into {t}({p},{s}) values(1,concat('{V}','x'))
insert into {t}({p},{s}) values(1,upper('{V}'))
insert into {t}({p},{s}) values(1,(select '{V}'))
insert into {t}({p},{s}) values(1,null)
insert into {t}({p},{s}) values(1,'{V}'),(2,'{V}')
insert into {t}({p},{s},{n}) values(1,'{V}',{N}),(2,'{V}',{N})
insert into {t} values(1,'{V}',{N})
insert into {t} values(1,'{V}',{N},'{V}')
insert into {t} values('{V}')
insert into {t}() values()
insert into {t} set {p}=1, {s}='{V}'
insert into {t}({p},{s}) select {p},'{V}' from {t}
insert into {t}({p},{s}) select {p2},{s2} from {t2}
insert into {t}({p},{s}) select {p2},{s2} from {t2} where {n2}={N}
insert into {t} select * from {t2}
insert into {t2}({p2}) select {s} from {t}
insert ignore into {t}({p},{s}) values(1,'{V}')
insert into {t}({p},{s}) values(1,'{V}') on duplicate key update {s}='{V}'
insert into {t}({p},{n}) values(1,{N}) on duplicate key update {n}={N}
insert into `{t}`(`{p}`,`{s}`) values(1,'{V}')
insert into app.{t}({p},{s}) values(1,'{V}')
insert into {T}({p},{S}) values(1,'{V}')
insert into {t}({p},{s}) values(1,"{V}")
insert {t}({p},{s}) values(1,'{V}')
insert into {t}({p},{s}) value(1,'{V}')
insert into {t}({s},nosuch) values('{V}',1)
insert into {t}({p},{s},{s}) values(1,'{V}','{V}')
insert into {t}({p},{s},{n}) values(1,'{V}')
insert into {t}({p}) values(1,'w')
replace into {t}({p},{s}) values(1,'{V}')
replace into {t} values(1,'{V}')
update {t} set {s}='{V}' where {p}=1
update {t} set {s}='{V}'
update {t} set {n}={N} where {s}='{V}'
update {t} set {n}={N}, {s}='{V}', {p}=4 where {p}=1
update {t} set {p}=4, {s}='{V}' where {n}>{N}
update {t} set {n}=-{N}
update {t} set {n}='{N}'
update {t} set {n}={n}+{N} where {p}=1
update {t} set {n}={n}+1
update {t} set {n}=1+{N}
update {t} set {s}=concat({s},'{V}')
update {t} set {s}=concat('{V}','a')
update {t} set {s}=upper('{V}')
update {t} set {s}={p}
update {t} set {p}={s}
update {t} set {p}={n}
update {t} set {s}={s}
update {t} set {s}=null where {s}='{V}'
update {t} set {s}=default
update {t} set {s}=(select {s2} from {t2} limit 1)
update {t} set {s}=case when {p}=1 then '{V}' else '{V}' end
update {t} set {s}=if({p}=1,'{V}','b')
update {t} set {p}=if({s}='{V}',1,2)
update {t} set {p}=case when {s}='{V}' then 1 else 2 end
update {t} set {p}={n}>{N}
update {t} set {t}.{s}='{V}' where {t}.{p}=1
update {t} set `{s}`='{V}'
update {t} set {p}=2 where {s} in ('{V}')
update {t} set {p}=2 where {n} between {N} and {N}
update {t} set {p}=2 where {s}<>'{V}'
update {t} set {p}=2 where {s} is null
update {t} set {p}=2 where {p} in (select {p2} from {t2} where {s2}='{V}')
update {t} set {s}='{V}' order by {n} limit 1
update {t} a set a.{s}='{V}' where a.{p}=1
update {t}, {t2} set {t}.{s}={t2}.{s2}
update {t} inner join {t2} on {t}.{p}={t2}.{p2} set {t}.{s}='{V}'
update {T} set {S}='{V}'
update ignore {t} set {s}='{V}'
update app.{t} set {s}='{V}'
delete from {t} where {s}='{V}'
delete from {t} where {n}>={N}
delete from {t} where {s}='{V}' and {n}={N}
delete from {t} where {s} in ('{V}','{V}')
delete from {t} where {s} like '%{V}%'
delete from {t} where {s} is null
delete from {t} where {n} between {N} and {N}
delete from {t} where not {s}='{V}'
delete from {t} where {s}!='{V}'
delete from {t} where upper({s})='{V}'
delete from {t} where {p} in (select {p2} from {t2} where {n2}={N})
delete from {t} where {s}='{V}' limit 1
delete from {t} order by {n} limit 1
delete from {t} where exists (select 1 from {t2} where {s2}='{V}')
delete {t} from {t} inner join {t2} on {t}.{p}={t2}.{p2} where {t2}.{s2}='{V}'
delete from {t} using {t} inner join {t2}
delete a from {t} a where a.{s}='{V}'
delete from `{t}` where `{s}`='{V}'
delete from {T} where {S}='{V}'
drop table if exists {t}x, {t}
drop table {t}, {t2}
drop table if exists {t}
drop table app.{t}
drop table `{t}`
drop table {T}
drop view {t}
drop index {s} on {t}
drop database app
truncate table {t}
truncate {t}
alter table {t} add primary key ({s})
alter table {t} add primary key ({p})
alter table {t} add unique key ({s})
alter table {t} add index ix ({s})
alter table {t} add foreign key ({s}) references {t2} ({s2})
alter table {t} add foreign key ({p}) references {t2} ({p2})
alter table {t} add constraint fk foreign key ({n}) references {t2}({n2})
alter table {t} add column zc int
alter table {t} drop column {s}
alter table {t} modify {s} varchar(10)
alter table {t} change {s} {s} varchar(10)
alter table {t} rename to {t}y
alter table {t} alter column {s} set default '{V}'
ALTER TABLE {T} ADD PRIMARY KEY ({S})
rename table {t} to {t}y
create table {t}c as select * from {t}
create table {t}c like {t}
create table {t}c select {s} from {t} where {s}='{V}'
create table {t}c(id int)
create table {t}c(id int, foreign key (id) references {t}({s}))
create temporary table {t}c(id int)
create index ix on {t}({s})
create view {t}v as select {s} from {t}
create view {t}v as select {p} from {t} where {s}='{V}'
create trigger tr before insert on {t} for each row set new.{s}='{V}'
show columns from {t}
show create table {t}
show tables like '{t}'
show tables
desc {t}
describe {t}
explain select * from {t} where {s}='{V}'
analyze table {t}
lock tables {t} write
handler {t} open
load data infile 'x' into table {t}
call p('{t}')
set @x='w'
set @x=(select {s} from {t} limit 1)
do (select {s} from {t} where {s}='{V}')
prepare st from 'select {s} from {t}'
select * from {t}; select * from {t2}
select * from {t}; drop table {t2}
select {p} from {t} where {s}='{V}'; delete from {t}
select {p} from {t} where {s}='{V}
select {p} from {t} where {s}='{V}' and
select {p} from {t} where and {s}='{V}'
select {p}, from {t} where {s}='{V}'
select from {t} where {s}='{V}'
select {p} {s} from {t}
select nosuch from {t} where {s}='{V}'
select {p} from {t} where nosuch='{V}' and {s}='{V}'
select {p} from nosuch where {s}='{V}'
insert into {t}({p},{s}) values(1,'{V}'
insert into {t}({p},{s} values(1,'{V}')
insert into {t}({p},{s}) (1,'{V}')
update {t} set where {s}='{V}'
update {t} {s}='{V}'
delete {t} where {s}='{V}'
delete from {t} {s}='{V}'
""".strip().split('\n')

KW = {'and', 'or', 'not', 'in', 'between', 'like', 'where', 'set', 'values', 'value', 'is', 'null', 'select', 'from', 'on', 'when',
      'then', 'else', 'case', 'if', 'having', 'limit', 'order', 'by', 'regexp'}
TOK = re.compile(r"'(?:[^'\\]|\\.|'')*'|\"(?:[^\"\\]|\\.)*\"|`[^`]*`|@?[A-Za-z_][\w.$]*|\d+(?:\.\d+)?|<=>|[<>!=]=?|<>|\S")


class Secrets:
    """The markers of one run."""

    def __init__(self):
        self.names = {}         # lower-case name -> (what, known from this request on)
        self.values = {}        # marker string -> request
        self.ints = {}          # marker digits -> request
        self.ope = set()        # columns that keep order

    def windows(self, v):
        if len(v) <= 8:
            return [v]
        return [v[i:i + 8] for i in range(len(v) - 7)]

    def find(self, text):
        """What is there in the text that must not be: (kind, what) or None; and the numbers in ordered columns."""
        low = text.lower()
        for n, what in self.names.items():
            if n in low:
                return (what, n), []
        for v, op in self.values.items():
            for w in self.windows(v):
                if w in low:
                    return ('value', v), []
            for enc in (v.encode().hex(), base64.b64encode(v.encode()).decode().lower().rstrip('=')[:-1]):
                if enc in low:
                    return ('value', v + ' encoded'), []
        hits = []
        for m in re.finditer(r'(?<![\w.])(\d{9})(?![\w])', text):
            if m.group(1) in self.ints:
                hits.append(m.group(1))
        if not hits:
            return None, []
        bad, ok = self.numbers(text, set(hits))
        return bad, ok

    def numbers(self, text, hits):
        toks = TOK.findall(text)
        ok = []
        ins = None
        if toks and toks[0].lower() in ('insert', 'replace'):
            i = toks.index('(') if '(' in toks else -1
            if i > 0:
                j = toks.index(')', i)
                cols = [x for x in toks[i + 1:j] if x != ',']
                ins = (j, cols)
        pos = None
        for i, t in enumerate(toks):
            bare = t.strip("'\"")
            if ins and i > ins[0]:
                if t == '(':
                    pos = 0
                elif t == ',' and pos is not None:
                    pos += 1
                elif t == ')':
                    pos = None
            if bare not in hits and bare.split('.')[0] not in hits:
                continue
            if re.search(r'\.0*[1-9]', bare):
                # not what the cipher of a column that keeps order makes: that is a whole number
                return ('value', bare), ok
            if ins and i > ins[0]:
                col = ins[1][pos] if pos is not None and pos < len(ins[1]) else None
            else:
                col = self.column(toks, i)
            if col is not None and col.split('.')[-1].strip('`') in self.ope:
                ok.append(bare)
            else:
                return ('value', '%s at %s' % (bare, col)), ok
        return None, ok

    def column(self, toks, i):
        j = i - 1
        while j >= 0:
            t = toks[j]
            if t.lower() == 'default' and toks[0].lower() == 'create':
                # a column's definition: its name is the first word
                while toks[j] != ',' and toks[j] != '(' and j:
                    j -= 1
                # the catalog is written when the table is there: the type tells the column that keeps order from the others
                if toks[j + 2].lower() == 'bigint':
                    self.ope.add(toks[j + 1].strip('`'))
                return toks[j + 1]
            if re.match(r'[A-Za-z_`]', t) and t.lower() not in KW:
                return t
            if t.lower() in ('and', 'between', 'in', 'not', 'like') or t in ('=', '<', '>', '<=', '>=', '!=', '<>', '-', '(', ',', '<=>') or t[0].isdigit() or t[0] in '\'"':
                j -= 1
                continue
            break
        for t in toks[i + 1:i + 3]:
            if re.match(r'[A-Za-z_`]', t) and t.lower() not in KW:
                return t
        return None
