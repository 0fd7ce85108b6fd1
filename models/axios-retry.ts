export default (client, o) => { client.retries = o === undefined || o.retries === undefined ? 3 : o.retries; };
